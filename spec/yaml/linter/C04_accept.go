package linter

import "github.com/drone/drone-yaml/yaml"

// C04: the linter rejects nothing else: a pipeline that satisfies the listed
// conditions is accepted.  Trust only relaxes: the conditions for a trusted
// repository are a subset of those for an untrusted one.

func okContainer(c *yaml.Container, trusted bool) bool {
	return c.Name != "" && (c.Build != nil || c.Image != "") && (c.Build == nil || c.Build.Image != "") &&
		vForall(len(c.Volumes), func(j int) bool {
			n := c.Volumes[j].Name
			return n != "workspace" && n != "_workspace" && n != "_docker_socket"
		}) && (trusted || !c.Privileged && len(c.Devices) == 0 && len(c.DNS) == 0 && len(c.DNSSearch) == 0 &&
		len(c.ExtraHosts) == 0 && len(c.Network) == 0 &&
		vForall(len(c.Ports), func(j int) bool { return c.Ports[j].Host == 0 }))
}

func okVolume(v *yaml.Volume, trusted bool) bool {
	return v.Name != "workspace" && v.Name != "_workspace" && v.Name != "_docker_socket" &&
		(trusted || v.HostPath == nil && (v.EmptyDir == nil || v.EmptyDir.Medium != "memory"))
}

func P_C04_accepts(p *yaml.Pipeline, trusted bool) {
	vRequire(yaml.Whole(p))
	os, arch := p.Platform.OS, p.Platform.Arch
	vRequire(os == "" || os == "linux" || os == "windows")
	vRequire(arch == "" || arch == "arm" || arch == "arm64" || arch == "amd64" || arch == "ppc64le" || arch == "s390x")
	vRequire(vForall(len(p.Volumes), func(i int) bool { return okVolume(p.Volumes[i], trusted) }))
	vRequire(vForall(len(p.Steps), func(i int) bool { return okContainer(p.Steps[i], trusted) }))
	vRequire(vForall(len(p.Services), func(i int) bool { return okContainer(p.Services[i], trusted) }))
	vRequire(vForall(len(p.Steps), func(i int) bool {
		return (p.Clone.Disable || p.Steps[i].Name != "clone") &&
			vForall(i, func(j int) bool { return p.Steps[i].Name != p.Steps[j].Name })
	}))
	vRequire(vForall(len(p.Services), func(i int) bool {
		return (p.Clone.Disable || p.Services[i].Name != "clone") &&
			vForall(i, func(j int) bool { return p.Services[i].Name != p.Services[j].Name }) &&
			vForall(len(p.Steps), func(j int) bool { return p.Services[i].Name != p.Steps[j].Name })
	}))
	vRequire(vForall(len(p.Steps), func(i int) bool {
		c := p.Steps[i]
		return vForall(len(c.DependsOn), func(d int) bool {
			return (c.DependsOn[d] == "clone" && !p.Clone.Disable) ||
				vExists(i, func(j int) bool { return p.Steps[j].Name == c.DependsOn[d] })
		})
	}))
	vEnsure("a conforming pipeline is accepted", Lint(p, trusted) == nil)
}

func P_C04_pure(p *yaml.Pipeline, trusted bool) {
	Lint(p, trusted)
	vEnsure("linting does not change the pipeline", vUnchanged())
}

func P_C04_cron(r *yaml.Cron, trusted bool) {
	vEnsure("cron accepted iff it names a branch", (Lint(r, trusted) == nil) == (r.Spec.Branch != ""))
}

func P_C04_secret(r *yaml.Secret, trusted bool) {
	vEnsure("secret accepted iff it has data or a reference",
		(Lint(r, trusted) == nil) == (len(r.Data) > 0 || r.Get.Path != "" || r.Get.Name != ""))
}

func P_C04_registry(r *yaml.Registry, trusted bool) {
	vEnsure("registry accepted iff it has data", (Lint(r, trusted) == nil) == (len(r.Data) > 0))
}

func P_C04_signature(r *yaml.Signature, trusted bool) {
	vEnsure("signature accepted iff it has an hmac", (Lint(r, trusted) == nil) == (r.Hmac != ""))
}
