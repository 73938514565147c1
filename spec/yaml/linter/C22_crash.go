package linter

import "github.com/drone/drone-yaml/yaml"

// C22: no configuration crashes the linter, and one that it accepts has no
// empty list items, which would crash the compiler.

func P_C22_lint(p *yaml.Pipeline, trusted bool) {
	vRequire(p != nil)
	vNoPanic()
	err := Lint(p, trusted)
	vEnsure("a pipeline that passes has no empty list item", err != nil || yaml.Whole(p))
}

func P_C22_manifest(m *yaml.Manifest, trusted bool) {
	vRequire(vForall(len(m.Resources), func(i int) bool { return !isPipe(m, i) || pipe(m, i) != nil }))
	vNoPanic()
	Manifest(m, trusted)
	vEnsure("linting a manifest ends", true)
}
