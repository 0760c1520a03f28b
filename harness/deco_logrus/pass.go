package logrus

import (
	"github.com/sirupsen/logrus"

	"deco.local/svc"
)

//verif:reach panic,returned
func Verif_C01_logrus() {
	svc.Pass("logrus", func(b svc.Svc) svc.Svc { return NewSvcWithLogrus(b, logrus.NewEntry(logrus.New())) })
}
