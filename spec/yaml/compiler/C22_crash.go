package compiler

import "github.com/drone/drone-yaml/yaml"

// C22: a pipeline that the linter accepts compiles without a crash.

func P_C22_compile(p *yaml.Pipeline, skip, priv func(*yaml.Container) bool) {
	vRequire(yaml.Whole(p))
	vNoPanic()
	spec := anyCompiler(skip, priv).Compile(p)
	vEnsure("there is a compiled pipeline", spec != nil && spec.Docker != nil)
}
