package compiler

import (
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

func P_C16_policy(p *yaml.Pipeline, d SkipData, priv func(*yaml.Container) bool) {
	skip := SkipFunc(d)
	c := anyCompiler(skip, priv)
	spec := c.Compile(p)
	vEnsure("the clone step runs on success", p.Clone.Disable || spec.Steps[0].RunPolicy == engine.RunOnSuccess)
	vEnsure("the clone step must not fail", p.Clone.Disable || !spec.Steps[0].IgnoreErr)
	vEnsure("run policy", perStep(p, spec, func(src *yaml.Container, dst *engine.Step, service bool) bool {
		ok := src.When.Status.Match("success")
		fail := src.When.Status.Match("failure") && len(src.When.Status.Include) > 0
		switch {
		case skip(src) || !ok && !fail:
			return dst.RunPolicy == engine.RunNever
		case ok && fail:
			return dst.RunPolicy == engine.RunAlways
		case fail:
			return dst.RunPolicy == engine.RunOnFailure
		}
		return dst.RunPolicy == engine.RunOnSuccess
	}))
	vEnsure("failure: ignore", perStep(p, spec, func(src *yaml.Container, dst *engine.Step, service bool) bool {
		return dst.IgnoreErr == strings.EqualFold(src.Failure, "ignore")
	}))
}
