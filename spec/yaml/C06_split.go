//go:build go1.18

package yaml

import (
	"strings"
)

func P_C06_markers(line string) {
	vEnsure("a separator is a line that starts with ---", isSeparator(line) == strings.HasPrefix(line, "---"))
	vEnsure("a terminator is a line that starts with ...", isTerminator(line) == strings.HasPrefix(line, "..."))
}

func P_C06_split(text string) {
	want, readable := DocsOf(text)
	vNoPanic()
	got, err := ParseRaw(strings.NewReader(text))
	vMayPanic()
	if err != nil {
		vEnsure("nothing is returned with an error", len(got) == 0)
		vEnsure("an error means an unreadable line or an invalid document", !readable || vExists(len(want), func(i int) bool { return Invalid(want[i]) }))
		return
	}
	vEnsure("a file that cannot be read in full is an error", readable)
	vEnsure("one resource per document", len(got) == len(want))
	vEnsure("no empty entries", vForall(len(got), func(i int) bool { return got[i] != nil }))
	vEnsure("every document verbatim, in order", vForall(len(want), func(i int) bool { return string(got[i].Data) == want[i] }))
	vEnsure("every document is read for its kind, type and version", vForall(len(want), func(i int) bool {
		return got[i].Kind == Head(want[i]).Kind && got[i].Type == Head(want[i]).Type && got[i].Version == Head(want[i]).Version
	}))
	vEnsure("every document is valid yaml", vForall(len(want), func(i int) bool { return !Invalid(want[i]) }))
}

// isDocs: the resources are these documents.
func isDocs(got []*RawResource, want []string) bool {
	return len(got) == len(want) && vForall(len(want), func(i int) bool {
		return got[i] != nil && string(got[i].Data) == want[i] && got[i].Kind == Head(want[i]).Kind && got[i].Type == Head(want[i]).Type && got[i].Version == Head(want[i]).Version
	})
}

func P_C06_string(text string) {
	vAbstract()
	got, err := ParseRawString(text)
	want, readable := DocsOf(text)
	vEnsure("ParseRawString reads the documents of its text", err != nil || readable && isDocs(got, want))
}

func P_C06_bytes(text []byte) {
	vAbstract()
	got, err := ParseRawBytes(text)
	want, readable := DocsOf(string(text))
	vEnsure("ParseRawBytes reads the documents of its text", err != nil || readable && isDocs(got, want))
}

// split is an independent reading of the format, on strings.
func split(text string) []string {
	var done []string
	cur, open := "", false
	for text != "" {
		line, rest := text, ""
		if i := strings.Index(text, "\n"); i >= 0 {
			line, rest = text[:i], text[i+1:]
		}
		text = rest
		line = strings.TrimSuffix(line, "\r")
		if strings.HasPrefix(line, "---") {
			if open {
				done = append(done, cur)
			}
			cur, open = "", true
			continue
		}
		if strings.HasPrefix(line, "...") {
			open = true
			break
		}
		cur, open = cur+line+"\n", true
	}
	if open {
		done = append(done, cur)
	}
	return done
}

func N_C06_split(text string) {
	want := split(text)
	got, err := ParseRawString(text)
	bad := false
	for _, d := range want {
		if Invalid(d) {
			bad = true
		}
	}
	vEnsure("an error exactly when a document is not valid", (err != nil) == bad)
	if err != nil {
		return
	}
	vEnsure("one resource per document", len(got) == len(want))
	for i := range want {
		vEnsure("every document verbatim, in order", string(got[i].Data) == want[i])
		h := Head(want[i])
		vEnsure("the header of every document", got[i].Kind == h.Kind && got[i].Type == h.Type && got[i].Version == h.Version)
	}
}

func N_C06_entry(text string) {
	a, e1 := ParseRawString(text)
	b, e2 := ParseRawBytes([]byte(text))
	c, e3 := ParseRaw(strings.NewReader(text))
	vEnsure("every entry point reads the same documents", (e1 == nil) == (e2 == nil) && (e1 == nil) == (e3 == nil) && len(a) == len(b) && len(a) == len(c))
	for i := range a {
		vEnsure("every entry point reads the same text", string(a[i].Data) == string(b[i].Data) && string(a[i].Data) == string(c[i].Data))
	}
}

func N_C06_longline(text string) {
	line := "x: " + strings.Repeat("y", 70000)
	all := text + "\n---\nkind: secret\n" + line + "\ndata: z\n---\nkind: cron\n"
	got, err := ParseRawString(all)
	if err != nil {
		return
	}
	want := split(all)
	vEnsure("a long line is read in full or reported as an error, never dropped with what follows", len(got) == len(want))
	for i := range want {
		vEnsure("the documents of a file with a long line, verbatim", string(got[i].Data) == want[i])
	}
}
