//go:build go1.18 && !oss

package converter

import (
	"strings"

	"github.com/drone/drone-yaml/yaml/converter/bitbucket"
	"github.com/drone/drone-yaml/yaml/converter/gitlab"
	"github.com/drone/drone-yaml/yaml/converter/legacy"
)

// a file of drone's own format is left alone
func P_C25_native(d []byte, m Metadata) {
	vRequire(m.Filename != "bitbucket-pipelines.yml" && m.Filename != ".gitlab-ci.yml")
	vRequire(!legacy.Match(d))
	was := string(d)
	out, err := Convert(d, m)
	vEnsure("a file of the current format is no error", err == nil)
	vEnsure("a file of the current format is returned as it is", string(out) == was)
	vEnsure("nothing is changed", vUnchanged())
}

func vRun(f func() ([]byte, error)) (string, bool) {
	b, err := f()
	return string(b), err == nil
}

// each file goes to the converter of the system its name stands for
func N_C25_dispatch(text string, name string, ref string) {
	m := Metadata{Filename: name, Ref: ref, URL: "https://github.com/octocat/hello-world"}
	got, ok := vRun(func() ([]byte, error) { return Convert([]byte(text), m) })
	want, fine := text, true
	switch {
	case name == "bitbucket-pipelines.yml":
		want, fine = vRun(func() ([]byte, error) { return bitbucket.Convert([]byte(text), ref) })
	case name == ".gitlab-ci.yml":
		want, fine = vRun(func() ([]byte, error) { return gitlab.Convert([]byte(text)) })
	case vOld08(text):
		want, fine = vRun(func() ([]byte, error) { return legacy.Convert([]byte(text), m.URL) })
	}
	vEnsure("the file goes to its converter", got == want && ok == fine)
	s, err := ConvertString(text, m)
	vEnsure("the text entry point is the same", s == got && (err == nil) == ok)
}

// a line that starts with pipeline: and holds nothing else
func vOld08(text string) bool {
	for _, l := range strings.SplitAfter(text, "\n") {
		if strings.HasPrefix(l, "pipeline:") && strings.TrimSpace(l) == "pipeline:" {
			return true
		}
	}
	return false
}
