package linter

import "github.com/drone/drone-yaml/yaml"

func P_C03_deps(p *yaml.Pipeline, trusted bool) {
	err := Lint(p, trusted)
	vRequire(err == nil)
	vEnsure("every dependency is an earlier step", vForall(len(p.Steps), func(i int) bool {
		c := p.Steps[i]
		return vForall(len(c.DependsOn), func(d int) bool {
			return (c.DependsOn[d] == "clone" && !p.Clone.Disable) ||
				vExists(i, func(j int) bool { return p.Steps[j].Name == c.DependsOn[d] })
		})
	}))
}
