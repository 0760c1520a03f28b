package robinpool

import (
	"deco.local/svc"
)

//verif:reach panic,returned
func Verif_C01_robinpool() {
	svc.Pass("robinpool", func(b svc.Svc) svc.Svc { return MustNewSvcRoundRobinPool(b) })
}
