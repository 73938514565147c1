package compiler

import (
	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

// stepOff is the position of the first service in the compiled step list.
func stepOff(p *yaml.Pipeline) int {
	if p.Clone.Disable {
		return 0
	}
	return 1
}

// perStep: f holds of every service and every step and its compiled counterpart.
func perStep(p *yaml.Pipeline, s *engine.Spec, f func(src *yaml.Container, dst *engine.Step, service bool) bool) bool {
	off := stepOff(p)
	return vForall(len(p.Services), func(i int) bool { return f(p.Services[i], s.Steps[off+i], true) }) &&
		vForall(len(p.Steps), func(i int) bool { return f(p.Steps[i], s.Steps[off+len(p.Services)+i], false) })
}

// sameStrs: equal lists (an empty list and no list are the same).
func sameStrs(a, b []string) bool {
	return len(a) == len(b) && vForall(len(a), func(i int) bool { return a[i] == b[i] })
}

// anyCompiler: a compiler with any answers to its questions (nil: the default).
func anyCompiler(skip, priv func(*yaml.Container) bool) *Compiler {
	return &Compiler{SkipFunc: skip, PrivilegedFunc: priv}
}
