//go:build go1.18

package yaml

import (
	"io"
	"strings"
)

var vKinds = []string{"cron", "secret", "signature", "registry", "pipeline", "pipeline", "foo", "Pipeline", "''"}

func (g *vG) pick(xs ...string) string { return xs[g.n(len(xs))] }

func (g *vG) vKind() string {
	if g.n(6) == 0 {
		return g.pool()
	}
	return g.pick(vKinds...)
}

// vBody: the lines of one document
func (g *vG) vBody(kind string) string {
	var b strings.Builder
	if g.n(12) != 0 {
		b.WriteString("kind: " + kind + "\n")
	}
	for i, k := 0, g.n(4); i < k; i++ {
		if g.n(10) == 0 {
			b.WriteString(g.pick("", "# ", "name: ") + g.pool() + "\n")
			continue
		}
		b.WriteString(g.pick("name: a", "name: b", "type: docker", "version: 1", "data: d", "hmac: 0011", "", " ", "# --- c", "steps:\n- name: x\n  image: y",
			"get:\n  path: p\n  name: n", "spec:\n  schedule: s", "x: '---'", "x: ...", " --- ", "platform:\n  os: linux", "environment:\n  a: b", "---x", "trigger:\n  branch: master") + g.pick("\n", "\n", "\n", "\r\n"))
	}
	if g.n(25) == 0 {
		b.WriteString(g.pick("...\n", "\tx", "kind: [", "...", "-", "x"))
	}
	return b.String()
}

func (g *vG) vText() string {
	var b strings.Builder
	if g.n(3) != 0 {
		b.WriteString("---\n")
	}
	for i, k := 0, g.n(5); i < k; i++ {
		if i > 0 {
			b.WriteString(g.pick("---\n", "---\n", "--- # x\n", "---\r\n", "---x\n"))
		}
		b.WriteString(g.vBody(g.vKind()))
	}
	b.WriteString(g.pick("", "", "...\n", "...\nrest: 1\n", "---\n", "no newline"))
	s := b.String()
	if g.n(20) == 0 && len(s) > 0 {
		i := g.n(len(s))
		s = s[:i] + s[i+1:]
	}
	return s
}

func Gen_N_C06_split(g *vG) string    { return g.vText() }
func Gen_N_C06_entry(g *vG) string    { return g.vText() }
func Gen_N_C06_longline(g *vG) string { return g.vText() }
func Gen_N_C07_manifest(g *vG) string { return g.vText() }
func Gen_N_C07_json(g *vG) string     { return g.vText() }
func Gen_P_C07_parse(g *vG) string    { return g.vText() }
func Gen_P_C07_dispatch(g *vG) *RawResource {
	k := g.vKind()
	return &RawResource{Kind: k, Data: []byte(g.vBody(k))}
}
func Gen_Contract_ParseRaw(g *vG) io.Reader { return strings.NewReader(g.vText()) }
func Gen_P_C07_decode(g *vG) *RawResource { return Gen_P_C07_dispatch(g) }
