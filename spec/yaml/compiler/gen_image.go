//go:build go1.18

package compiler

import (
	"reflect"

	"github.com/drone/drone-yaml/yaml"
)

var vImages = []string{"octocat/app", "octocat/app:latest", "docker.io/octocat/app", "octocat/app:1", "app", "library/app", "docker.io/library/app:latest", "octocat/application", "gcr.io/octocat/app", "octocat/app2", "UPPER", ""}

func (g *vG) vImagePipe() *yaml.Pipeline {
	p := g.nonnil(reflect.TypeOf((*yaml.Pipeline)(nil)), 0).Interface().(*yaml.Pipeline)
	for _, l := range [][]*yaml.Container{p.Services, p.Steps} {
		for _, c := range l {
			if c == nil {
				continue
			}
			if g.n(4) != 0 {
				c.Image = vImages[g.n(len(vImages))]
			}
			if g.n(3) == 0 {
				c.Build = &yaml.Build{Image: vImages[g.n(len(vImages))]}
			} else if g.n(2) == 0 {
				c.Build = nil
			}
		}
	}
	return p
}

func (g *vG) vAsk() func(*yaml.Container) bool {
	return g.value(reflect.TypeOf((func(*yaml.Container) bool)(nil)), 0).Interface().(func(*yaml.Container) bool)
}

func Gen_N_C21_alias(g *vG) (*yaml.Pipeline, func(*yaml.Container) bool, func(*yaml.Container) bool) {
	return g.vImagePipe(), g.vAsk(), g.vAsk()
}

func Gen_P_C21_compile(g *vG) (*yaml.Pipeline, func(*yaml.Container) bool, func(*yaml.Container) bool) {
	return g.vImagePipe(), g.vAsk(), g.vAsk()
}
