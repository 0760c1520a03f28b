package validate

import "deco.local/svc"

//verif:reach refused,admitted,ungated
func Verif_C09_validate() {
	svc.Gate(func(b svc.Checked) svc.Checked { return NewCheckedWithValidation(b) },
		func(got, cause error) bool { return got == cause })
}
