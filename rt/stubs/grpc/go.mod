module google.golang.org/grpc

go 1.24.0
