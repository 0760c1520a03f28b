package log

import (
	"io"

	"deco.local/svc"
)

//verif:reach panic,returned
func Verif_C01_log() {
	svc.Pass("log", func(b svc.Svc) svc.Svc { return NewSvcWithLog(b, io.Discard, io.Discard) })
}
