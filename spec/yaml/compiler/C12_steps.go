//go:build go1.18

package compiler

import (
	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

func P_C12_steps(p *yaml.Pipeline, skip, priv func(*yaml.Container) bool) {
	c := anyCompiler(skip, priv)
	spec := c.Compile(p)
	off := stepOff(p)
	vEnsure("one runtime step per clone, service and step", len(spec.Steps) == off+len(p.Services)+len(p.Steps))
	vEnsure("the clone step comes first", p.Clone.Disable || spec.Steps[0].Metadata.Name == "clone")
	vEnsure("names and order are kept", perStep(p, spec, func(src *yaml.Container, dst *engine.Step, service bool) bool {
		return dst.Metadata.Name == src.Name
	}))
	vEnsure("services are detached, steps as requested", perStep(p, spec, func(src *yaml.Container, dst *engine.Step, service bool) bool {
		return dst.Detach == (service || src.Detach)
	}))
}

func P_C12_frame(p *yaml.Pipeline, skip, priv func(*yaml.Container) bool) {
	c := anyCompiler(skip, priv)
	spec := c.Compile(p)
	vLemma("every step is a new object", vForall(len(spec.Steps), func(j int) bool {
		return vFresh(spec.Steps[j])
	}))
	vLemma("every step has its own docker section", vForall(len(spec.Steps), func(j int) bool {
		return vFresh(spec.Steps[j].Docker)
	}))
	vEnsure("compiling does not change the pipeline", vUnchanged())
}
