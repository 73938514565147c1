package linter

import "github.com/drone/drone-yaml/yaml"

// C01: the linter accepts a pipeline of an untrusted repository only if it
// uses none of the privileged features, anywhere in it.

func P_C01_volumes(p *yaml.Pipeline) {
	err := Lint(p, false)
	vRequire(err == nil)
	vEnsure("no host path volume", vForall(len(p.Volumes), func(i int) bool {
		return p.Volumes[i].HostPath == nil
	}))
	vEnsure("no in-memory volume", vForall(len(p.Volumes), func(i int) bool {
		return p.Volumes[i].EmptyDir == nil || p.Volumes[i].EmptyDir.Medium != "memory"
	}))
}

func plain(c *yaml.Container) bool {
	return !c.Privileged && len(c.Devices) == 0 && len(c.DNS) == 0 && len(c.DNSSearch) == 0 &&
		len(c.ExtraHosts) == 0 && len(c.Network) == 0 &&
		vForall(len(c.Ports), func(j int) bool { return c.Ports[j].Host == 0 })
}

func P_C01_steps(p *yaml.Pipeline) {
	err := Lint(p, false)
	vRequire(err == nil)
	vEnsure("steps use no privileged option", vForall(len(p.Steps), func(i int) bool {
		return plain(p.Steps[i])
	}))
}

func P_C01_services(p *yaml.Pipeline) {
	err := Lint(p, false)
	vRequire(err == nil)
	vEnsure("services use no privileged option", vForall(len(p.Services), func(i int) bool {
		return plain(p.Services[i])
	}))
}
