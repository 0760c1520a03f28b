module go.opencensus.io

go 1.24.0
