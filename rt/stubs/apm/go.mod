module go.elastic.co/apm/v2

go 1.24.0
