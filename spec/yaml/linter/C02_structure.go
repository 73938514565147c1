package linter

import "github.com/drone/drone-yaml/yaml"

func reserved(s string) bool { return s == "workspace" || s == "_workspace" || s == "_docker_socket" }

func wellFormed(c *yaml.Container) bool {
	return c.Name != "" && (c.Build != nil || c.Image != "") && (c.Build == nil || c.Build.Image != "") &&
		vForall(len(c.Volumes), func(j int) bool { return !reserved(c.Volumes[j].Name) })
}

func P_C02_containers(p *yaml.Pipeline, trusted bool) {
	err := Lint(p, trusted)
	vRequire(err == nil)
	vEnsure("steps well formed", vForall(len(p.Steps), func(i int) bool { return wellFormed(p.Steps[i]) }))
	vEnsure("services well formed", vForall(len(p.Services), func(i int) bool { return wellFormed(p.Services[i]) }))
}

func P_C02_volumes(p *yaml.Pipeline, trusted bool) {
	err := Lint(p, trusted)
	vRequire(err == nil)
	vEnsure("no reserved volume name", vForall(len(p.Volumes), func(i int) bool { return !reserved(p.Volumes[i].Name) }))
}

func P_C02_platform(p *yaml.Pipeline, trusted bool) {
	err := Lint(p, trusted)
	vRequire(err == nil)
	os, arch := p.Platform.OS, p.Platform.Arch
	vEnsure("os supported", os == "" || os == "linux" || os == "windows")
	vEnsure("arch supported", arch == "" || arch == "arm" || arch == "arm64" || arch == "amd64" ||
		arch == "ppc64le" || arch == "s390x")
}

func P_C02_names(p *yaml.Pipeline, trusted bool) {
	err := Lint(p, trusted)
	vRequire(err == nil)
	vEnsure("step names unique", vForall(len(p.Steps), func(i int) bool {
		return vForall(i, func(j int) bool { return p.Steps[i].Name != p.Steps[j].Name })
	}))
	vEnsure("service names unique", vForall(len(p.Services), func(i int) bool {
		return vForall(i, func(j int) bool { return p.Services[i].Name != p.Services[j].Name })
	}))
	vEnsure("no name shared by a step and a service", vForall(len(p.Services), func(i int) bool {
		return vForall(len(p.Steps), func(j int) bool { return p.Services[i].Name != p.Steps[j].Name })
	}))
	vEnsure("clone is reserved unless cloning is disabled", p.Clone.Disable ||
		(vForall(len(p.Steps), func(i int) bool { return p.Steps[i].Name != "clone" }) &&
			vForall(len(p.Services), func(i int) bool { return p.Services[i].Name != "clone" })))
}
