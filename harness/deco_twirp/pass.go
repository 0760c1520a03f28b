package twirp

import (
	"deco.local/svc"
)

//verif:reach panic,returned
func Verif_C01_twirp() {
	svc.Pass("twirp", func(b svc.Svc) svc.Svc { return NewSvcWithTwirpValidation(b) })
}
