package validate

import (
	"deco.local/svc"
)

//verif:reach panic,returned
func Verif_C01_validate() {
	svc.Pass("validate", func(b svc.Svc) svc.Svc { return NewSvcWithValidation(b) })
}
