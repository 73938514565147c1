//go:build go1.18

package image

func Contract_Expand(name string) {
	vNoPanic()
	r, r2 := Expand(name), Expand(name)
	vEnsure("the result depends on the argument only", vFunctional(r, r2))
	vEnsure("nothing else changes", vUnchanged())
}

func Contract_Trim(name string) {
	vNoPanic()
	r, r2 := Trim(name), Trim(name)
	vEnsure("the result depends on the argument only", vFunctional(r, r2))
	vEnsure("nothing else changes", vUnchanged())
}
