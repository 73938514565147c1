//go:build go1.18

package compiler

import (
	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler/image"
)

func P_C21_step(spec *engine.Spec, src *yaml.Container) {
	dst := createStep(spec, src)
	vEnsure("a step runs the image of its definition, fully qualified", dst.Docker.Image == image.Expand(src.Image))
}

func P_C21_build(spec *engine.Spec, src *yaml.Container) {
	vRequire(src.Build != nil)
	dst := createBuildStep(spec, src)
	v := src.Build.Image
	vEnsure("a build step makes the image of its definition, fully qualified", v == "" || dst.Envs["DOCKER_BUILD_IMAGE"] == image.Expand(v))
	vEnsure("under an alias of this run only", v == "" || dst.Envs["DOCKER_BUILD_IMAGE_ALIAS"] == image.Expand(image.Trim(v)+":"+dst.Metadata.UID))
}

func P_C21_names(a, b string, list []string) {
	vNoPanic()
	vEnsure("two names are the same image when they are the same fully qualified", image.MatchTag(a, b) == (image.Expand(a) == image.Expand(b)))
	vEnsure("a name is in a list when it is that of an entry without the tag", image.Match(a, list...) == vExists(len(list), func(i int) bool { return image.Trim(list[i]) == image.Trim(a) }))
}

// built: some step of the pipeline builds this image.
func built(p *yaml.Pipeline, name string) bool {
	return vExists(len(p.Steps), func(i int) bool {
		return p.Steps[i].Build != nil && image.Expand(p.Steps[i].Build.Image) == image.Expand(name)
	})
}

func P_C21_compile(p *yaml.Pipeline, skip, priv func(*yaml.Container) bool) {
	spec := anyCompiler(skip, priv).Compile(p)
	vEnsure("an image that the pipeline does not build is the one of the definition, fully qualified", perStep(p, spec, func(src *yaml.Container, dst *engine.Step, service bool) bool {
		return src.Build != nil && !service || built(p, image.Expand(src.Image)) || dst.Docker.Image == image.Expand(src.Image)
	}))
}

// a step that runs an image which exactly one step builds runs the alias of
// that build (bounded).
func N_C21_alias(p *yaml.Pipeline, skip, priv func(*yaml.Container) bool) {
	vRequire(vForall(len(p.Steps), func(i int) bool {
		return vForall(len(p.Steps), func(j int) bool {
			return i == j || p.Steps[i].Build == nil || p.Steps[j].Build == nil || !image.MatchTag(p.Steps[i].Build.Image, p.Steps[j].Build.Image)
		})
	}))
	spec := anyCompiler(skip, priv).Compile(p)
	off := stepOff(p) + len(p.Services)
	vEnsure("an image that a step builds is replaced by the alias of that build", perStep(p, spec, func(src *yaml.Container, dst *engine.Step, service bool) bool {
		return src.Build != nil && !service || vForall(len(p.Steps), func(j int) bool {
			full := image.Expand(src.Image)
			return p.Steps[j].Build == nil || !image.MatchTag(full, p.Steps[j].Build.Image) ||
				dst.Docker.Image == image.Expand(image.Trim(full)+":"+spec.Steps[off+j].Metadata.UID)
		})
	}))
}
