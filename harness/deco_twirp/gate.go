package twirp

import (
	"errors"
	"fmt"

	"deco.local/svc"
	"github.com/twitchtv/twirp"

	"verif.local/zv/v"
)

//verif:reach refused,admitted,ungated
func Verif_C09_twirp() {
	svc.Gate(func(b svc.Checked) svc.Checked { return NewCheckedWithTwirpValidation(b) },
		func(got, cause error) bool {
			var te twirp.Error
			return errors.As(got, &te) && (te.Code() == twirp.InvalidArgument || te.Code() == twirp.Malformed) && v.Eq(te.Msg(), cause.Error())
		},
		func(text string) error { return twirp.NewError(twirp.Unavailable, text) },
		func(text string) error { return fmt.Errorf("%s: %w", text, twirp.NewError(twirp.NotFound, "x")) })
}
