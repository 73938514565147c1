//go:build go1.18

package yaml

import "strings"

func (g *vG) pick(xs ...string) string { return xs[g.n(len(xs))] }

func (g *vG) vStep(b *strings.Builder, name string) {
	b.WriteString("  " + name + ":\n    image: " + g.pick("golang", "golang:1.9", "octocat/app", "plugins/docker") + "\n")
	if g.n(2) == 0 {
		b.WriteString("    commands: [ " + g.pick("go test", "'echo \"x\"'", "a, b", "make -j 4, 'x # y'") + " ]\n")
	}
	if g.n(4) == 0 {
		b.WriteString("    environment: " + g.pick("[ A=b, C=d=e ]", "{ A: b }", "[ X ]") + "\n")
	}
	if g.n(4) == 0 {
		b.WriteString("    secrets: " + g.pick("[ a, b ]", "[ { source: s, target: t } ]") + "\n")
	}
	if g.n(4) == 0 {
		b.WriteString("    volumes: " + g.pick("[ /a:/b ]", "[ /a:/c, /x:/y:ro ]", "[ /a:/d, /a:/e ]") + "\n")
	}
	if g.n(4) == 0 {
		b.WriteString("    " + g.pick("privileged: true", "detach: true", "pull: true", "repo: octocat/app", "tags: [ a, b ]") + "\n")
	}
	if g.n(3) == 0 {
		b.WriteString("    when: { " + g.pick("branch: master", "event: [ push, deployment ]", "status: [ failure ]", "event: { exclude: deploy }") + " }\n")
	}
}

func Gen_N_C24_file(g *vG) string {
	var b strings.Builder
	for _, part := range []string{"clone", "pipeline", "services"} {
		if part != "pipeline" && g.n(2) == 0 {
			continue
		}
		b.WriteString(part + ":\n")
		for i, n := 0, 1+g.n(3); i < n; i++ {
			g.vStep(&b, g.pick("a", "b", "c", "test")+g.pick("", "1", "2"))
		}
	}
	if g.n(3) == 0 {
		b.WriteString("branches: " + g.pick("master", "[ master, dev ]", "{ exclude: [ x ] }") + "\n")
	}
	if g.n(3) == 0 {
		b.WriteString("workspace: { base: /x, path: " + g.pick("y", ".") + " }\n")
	}
	if g.n(3) == 0 {
		b.WriteString("secrets:\n  s: { vault: v }\n  r: { path: p }\n" + g.pick("", "  q: { driver: vault, driver_opts: { path: x, key: y } }\n"))
	}
	return b.String()
}
