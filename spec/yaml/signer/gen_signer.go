//go:build go1.18

package signer

import (
	"strings"
)

var vKinds = []string{"cron", "secret", "signature", "signature", "signature", "registry", "pipeline", "pipeline", "foo", "Pipeline", "''"}

func (g *vG) pick(xs ...string) string { return xs[g.n(len(xs))] }

// vBody: the lines of one document
func (g *vG) vBody(kind string) string {
	var b strings.Builder
	if g.n(12) != 0 {
		b.WriteString("kind: " + kind + "\n")
	}
	for i, k := 0, g.n(4); i < k; i++ {
		b.WriteString(g.pick("name: a", "name: b", "type: docker", "version: 1", "data: d", "hmac: 0011", "hmac: 389cf92a7472870783a9a5ea77b4abe58a4bb67ba58e1e7293e943aee314aedc", "", " ", "# --- c", "steps:\n- name: x\n  image: y",
			"get:\n  path: p\n  name: n", "spec:\n  schedule: s", "x: '---'", "x: ...", " --- ", "platform:\n  os: linux", "environment:\n  a: b", "---x", "trigger:\n  branch: master") + g.pick("\n", "\n", "\n", "\r\n"))
	}
	if g.n(25) == 0 {
		b.WriteString(g.pick("...\n", "\tx", "kind: [", "...", "-", "x"))
	}
	return b.String()
}

func (g *vG) vText() string {
	var b strings.Builder
	if g.n(3) != 0 {
		b.WriteString("---\n")
	}
	for i, k := 0, g.n(5); i < k; i++ {
		if i > 0 {
			b.WriteString(g.pick("---\n", "---\n", "--- # x\n", "---\r\n", "---x\n"))
		}
		b.WriteString(g.vBody(g.pick(vKinds...)))
	}
	b.WriteString(g.pick("", "", "...\n", "...\nrest: 1\n", "---\n", "no newline"))
	s := b.String()
	if g.n(20) == 0 && len(s) > 0 {
		i := g.n(len(s))
		s = s[:i] + s[i+1:]
	}
	return s
}

func (g *vG) vKey() Key {
	return Key(g.pick("589396227fff5a93ba934965e8735f88", "589396227fff5a93ba934965e8735f88", "589396227fff5a93ba934965e8735f8", "", "000000000000000000000000000000000000000000000000"))
}

// vSigned: sometimes a text that carries its own signature
func (g *vG) vSigned(key Key) string {
	t := g.vText()
	if g.n(2) == 0 {
		if b, err := SignUpdate([]byte(t), key); err == nil {
			t = string(b)
			if i := strings.LastIndex(t, "hmac: ") + 6; g.n(3) == 0 && i < len(t) {
				// and sometimes nearly so
				j := i + strings.IndexByte(t[i:], '\n')
				k := i + g.n(j-i+1)
				t = t[:k] + g.pick("", "0", "00", "A", " ", strings.ToUpper(t[k:j]), t[i:j], "\n"+t[i:j]) + g.pick("", t[j:], t[k:])
				if g.n(4) == 0 {
					t = g.pick("---\nkind: signature\nhmac: 00\n", "---\nkind: signature\n") + t
				}
			}
		}
	}
	return t
}

func Gen_P_C08_sign(g *vG) ([]byte, Key) { return []byte(g.vText()), g.vKey() }
func Gen_P_C08_verify(g *vG) ([]byte, Key) {
	k := g.vKey()
	return []byte(g.vSigned(k)), k
}
func Gen_P_C09_update(g *vG) ([]byte, Key) { return []byte(g.vText()), g.vKey() }
func Gen_P_C09_write(g *vG) ([]byte, string) {
	return []byte(g.vText()), g.pick("00", "abcd", "")
}
func Gen_N_C08_tamper(g *vG) (string, Key, int, string) {
	return g.vText(), g.vKey(), g.n(1000), g.pick("", "\n", "x", "---\n", "kind: pipeline\n", "kind: signature\n", " ", "#")
}
func Gen_N_C09_roundtrip(g *vG) (string, Key) { return g.vText(), g.vKey() }
func Gen_N_KC08_boundary(g *vG) (string, Key, int) {
	return g.vText(), g.vKey(), g.n(10)
}
