package linter

import "github.com/drone/drone-yaml/yaml"

func pipe(m *yaml.Manifest, i int) *yaml.Pipeline {
	p, _ := m.Resources[i].(*yaml.Pipeline)
	return p
}

func isPipe(m *yaml.Manifest, i int) bool {
	_, ok := m.Resources[i].(*yaml.Pipeline)
	return ok
}
