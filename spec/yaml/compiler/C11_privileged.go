package compiler

import (
	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler/image"
)

// C11: which compiled containers run privileged.
func P_C11_privileged(p *yaml.Pipeline, skip, priv func(*yaml.Container) bool) {
	vRequire(priv != nil)
	c := anyCompiler(skip, priv)
	spec := c.Compile(p)
	vEnsure("the clone step is not privileged", p.Clone.Disable || !spec.Steps[0].Docker.Privileged)
	vEnsure("privileged iff requested or approved by the privileged function", perStep(p, spec, func(src *yaml.Container, dst *engine.Step, service bool) bool {
		requested := src.Privileged && (service || src.Build == nil)
		return dst.Docker.Privileged == (requested || priv(src))
	}))
}

func P_C11_default(p *yaml.Pipeline, skip func(*yaml.Container) bool) {
	c := anyCompiler(skip, nil)
	spec := c.Compile(p)
	vEnsure("without a privileged function only requested containers are privileged", perStep(p, spec, func(src *yaml.Container, dst *engine.Step, service bool) bool {
		return dst.Docker.Privileged == (src.Privileged && (service || src.Build == nil))
	}))
}

func P_C11_dind(images []string, c *yaml.Container) {
	want := len(c.Commands) == 0 && len(c.Command) == 0 && len(c.Entrypoint) == 0 &&
		vExists(len(images), func(k int) bool { return image.Trim(images[k]) == image.Trim(c.Image) })
	vNoPanic()
	vEnsure("approved iff no commands, command or entrypoint and the image is whitelisted", DindFunc(images)(c) == want)
	vEnsure("the container is not changed", vUnchanged())
}
