module github.com/prometheus/client_golang

go 1.24.0
