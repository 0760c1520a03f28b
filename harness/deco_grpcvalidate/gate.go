package grpcvalidate

import (
	"fmt"

	"deco.local/svc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"verif.local/zv/v"
)

//verif:reach refused,admitted,ungated
func Verif_C09_grpc() {
	svc.Gate(func(b svc.Checked) svc.Checked { return NewCheckedWithGRPCValidation(b) },
		func(got, cause error) bool {
			return status.Code(got) == codes.InvalidArgument && v.Eq(status.Convert(got).Message(), cause.Error())
		},
		func(text string) error { return status.Error(codes.Unavailable, text) },
		func(text string) error { return fmt.Errorf("%s: %w", text, status.Error(codes.NotFound, "x")) })
}
