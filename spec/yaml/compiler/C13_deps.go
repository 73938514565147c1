package compiler

import (
	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

func sameList(a, b []string) bool {
	return len(a) == len(b) && vForall(len(a), func(i int) bool { return a[i] == b[i] })
}

func listPlus(a, b []string, s string) bool {
	return len(a) == len(b)+1 && a[len(b)] == s && vForall(len(b), func(i int) bool { return a[i] == b[i] })
}

func P_C13_deps(p *yaml.Pipeline, skip, priv func(*yaml.Container) bool) {
	c := anyCompiler(skip, priv)
	spec := c.Compile(p)
	graph := vExists(len(p.Steps), func(i int) bool { return len(p.Steps[i].DependsOn) != 0 })
	vEnsure("the clone step depends on nothing", p.Clone.Disable || len(spec.Steps[0].DependsOn) == 0)
	vEnsure("dependencies", perStep(p, spec, func(src *yaml.Container, dst *engine.Step, service bool) bool {
		if graph && !p.Clone.Disable && (service || len(src.DependsOn) == 0) {
			return listPlus(dst.DependsOn, src.DependsOn, "clone")
		}
		return sameList(dst.DependsOn, src.DependsOn)
	}))
}
