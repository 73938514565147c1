//go:build go1.18

package yaml

import "io"

func Contract_DocsOf(text string) {
	a, ok := DocsOf(text)
	b, ok2 := DocsOf(text)
	vEnsure("the result depends on the text only", vFunctional(a, b) && vFunctional(ok, ok2))
	vEnsure("nothing else changes", vUnchanged())
}

func Contract_ParseRaw(r io.Reader) {
	want, readable := DocsOf(vReader(r))
	fine := vReadable(r)
	got, err := ParseRaw(r)
	vEnsure("nothing else changes", vUnchanged())
	vEnsure("an error means an unreadable file or an invalid document", err == nil || !fine || !readable || vExists(len(want), func(i int) bool { return Invalid(want[i]) }))
	vEnsure("nothing is returned with an error", err == nil || len(got) == 0)
	vEnsure("a file that cannot be read in full is an error", err != nil || readable)
	vEnsure("one resource per document", err != nil || len(got) == len(want))
	vEnsure("the documents, in order", err != nil || vForall(len(want), func(i int) bool {
		return got[i] != nil && vFresh(got[i]) && string(got[i].Data) == want[i] && got[i].Kind == Head(want[i]).Kind && got[i].Type == Head(want[i]).Type && got[i].Version == Head(want[i]).Version
	}))
	vEnsure("every document is valid yaml", err != nil || vForall(len(want), func(i int) bool { return !Invalid(want[i]) }))
}
