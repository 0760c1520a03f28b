package grpcvalidate

import (
	"deco.local/svc"
)

//verif:reach panic,returned
func Verif_C01_grpcvalidate() {
	svc.Pass("grpcvalidate", func(b svc.Svc) svc.Svc { return NewSvcWithGRPCValidation(b) })
}
