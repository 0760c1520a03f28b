package syncpool

import (
	"deco.local/svc"
)

//verif:reach panic,returned
func Verif_C01_syncpool() {
	svc.Pass("syncpool", func(b svc.Svc) svc.Svc { return NewSvcPool(b) })
}
