package compiler

import (
	"strconv"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

func P_C18_container(spec *engine.Spec, src *yaml.Container) {
	dst := createStep(spec, src)
	d := dst.Docker
	noScript := len(src.Commands) == 0
	vEnsure("entrypoint and command are passed unless a script replaces them", !noScript || sameStrs(d.Command, src.Entrypoint) && sameStrs(d.Args, src.Command))
	vEnsure("dns, search domains and extra hosts are passed", sameStrs(d.DNS, src.DNS) && sameStrs(d.DNSSearch, src.DNSSearch) && sameStrs(d.ExtraHosts, src.ExtraHosts))
	vEnsure("network mode and user are passed", d.Network == src.Network && d.User == src.User && len(d.Networks) == 0)
	vEnsure("the working directory is passed only to detached steps without commands",
		src.Detach && noScript && dst.WorkingDir == src.WorkingDir || !(src.Detach && noScript) && dst.WorkingDir == "")
	vEnsure("dependencies are passed", sameStrs(dst.DependsOn, src.DependsOn))
	vEnsure("the step is labelled with its name and carries the namespace", dst.Metadata.Labels["io.drone.step.name"] == src.Name &&
		dst.Metadata.Name == src.Name && dst.Metadata.Namespace == spec.Metadata.Namespace)
	vEnsure("output is never ignored", !dst.IgnoreStdout && !dst.IgnoreStderr)
}

func P_C18_ports(spec *engine.Spec, src *yaml.Container) {
	dst := createStep(spec, src)
	vEnsure("one port per port, in order, with its numbers and protocol", len(dst.Docker.Ports) == len(src.Ports) && vForall(len(src.Ports), func(i int) bool {
		a, b := src.Ports[i], dst.Docker.Ports[i]
		return a.Port == b.Port && a.Host == b.Host && a.Protocol == b.Protocol
	}))
}

func P_C18_pull(spec *engine.Spec, src *yaml.Container) {
	dst := createStep(spec, src)
	got := dst.Docker.PullPolicy
	lower := strings.ToLower(src.Pull)
	vEnsure("always", lower != "always" || got == engine.PullAlways)
	vEnsure("never", lower != "never" || got == engine.PullNever)
	vEnsure("if-not-exists", lower != "if-not-exists" || got == engine.PullIfNotExists)
	vEnsure("anything else is the default policy", lower == "always" || lower == "never" || lower == "if-not-exists" || got == engine.PullDefault)
}

func sameObject(src *yaml.ResourceObject, dst *engine.ResourceObject) bool {
	if src == nil {
		return dst == nil
	}
	return dst != nil && dst.Memory == int64(src.Memory) && (src.CPU > 0 && dst.CPU == int64(src.CPU*1000) || !(src.CPU > 0) && dst.CPU == int64(src.CPU))
}

func sameResources(src *yaml.Container, dst *engine.Step) bool {
	if src.Resources == nil {
		return dst.Resources == nil
	}
	return dst.Resources != nil && sameObject(src.Resources.Limits, dst.Resources.Limits) && sameObject(src.Resources.Requests, dst.Resources.Requests)
}

func P_C18_resources(spec *engine.Spec, src *yaml.Container) {
	dst := createStep(spec, src)
	vEnsure("limits and requests: memory in bytes, cpu in millis", sameResources(src, dst))
}

func P_C18_build(spec *engine.Spec, src *yaml.Container) {
	vRequire(src.Build != nil)
	dst := createBuildStep(spec, src)
	b := src.Build
	vEnsure("the build image runs the build", dst.Docker.Image == "drone/docker" && len(dst.Docker.Args) == 1 && dst.Docker.Args[0] == "--build" &&
		dst.Docker.PullPolicy == engine.PullIfNotExists && sameStrs(dst.Docker.DNS, src.DNS) && len(dst.Docker.Command) == 0)
	vEnsure("resources, dependencies, name", sameResources(src, dst) && sameStrs(dst.DependsOn, src.DependsOn) && dst.Metadata.Name == src.Name &&
		dst.Metadata.Namespace == spec.Metadata.Namespace && dst.Metadata.Labels["io.drone.step.name"] == src.Name && dst.Detach == src.Detach)
	c, okc := dst.Envs["DOCKER_BUILD_CONTEXT"]
	vEnsure("the build context", okc == (b.Context != "") && (!okc || c == b.Context))
	f, okf := dst.Envs["DOCKER_BUILD_DOCKERFILE"]
	vEnsure("the dockerfile", okf == (b.Dockerfile != "") && (!okf || f == b.Dockerfile))
	k, okk := dst.Envs["DOCKER_BUILD_CACHE_FROM"]
	vEnsure("the cache images", okk == (len(b.CacheFrom) > 0) && (!okk || k == strings.Join(b.CacheFrom, ",")))
	_, oki := dst.Envs["DOCKER_BUILD_IMAGE"]
	_, oka := dst.Envs["DOCKER_BUILD_IMAGE_ALIAS"]
	vEnsure("the image and its alias", oki == (b.Image != "") && oka == oki)
	vEnsure("no secret, script or network setting reaches the build", len(dst.Secrets) == 0 && len(dst.Files) == 0 && dst.Docker.Network == "" && len(dst.Docker.Ports) == 0)
}

func P_C18_clone(p *yaml.Pipeline) {
	src := createClone(p)
	os, arch, version := p.Platform.OS, p.Platform.Arch, p.Platform.Version
	want := "drone/git"
	switch {
	case os == "linux" && arch == "arm":
		want = "drone/git:linux-arm"
	case os == "linux" && arch == "arm64":
		want = "drone/git:linux-arm64"
	case os == "windows" && version == "1903":
		want = "drone/git:windows-1903-amd64"
	case os == "windows" && version == "1803":
		want = "drone/git:windows-1803-amd64"
	case os == "windows" && version == "1709":
		want = "drone/git:windows-1709-amd64"
	case os == "windows":
		want = "drone/git:windows-1809-amd64"
	}
	vEnsure("the clone container", src.Name == "clone" && src.Image == want && len(src.Commands) == 0)
}

func P_C18_clonestep(p *yaml.Pipeline, spec *engine.Spec, data []byte) {
	dst := createStep(spec, createClone(p))
	files := len(spec.Files)
	setupCloneDepth(p, dst)
	setupCloneCredentials(spec, dst, data)
	vEnsure("depth and skip_verify are passed", cloneEnv(p, dst))
	vEnsure("credentials are mounted into the clone step if there are any", credentials(spec, dst, data, files))
}

// cloneEnv: the parameters of the clone step.
func cloneEnv(p *yaml.Pipeline, dst *engine.Step) bool {
	d, ok := dst.Envs["PLUGIN_DEPTH"]
	v, okv := dst.Envs["GIT_SSL_NO_VERIFY"]
	w, okw := dst.Envs["PLUGIN_SKIP_VERIFY"]
	return ok == (p.Clone.Depth > 0) && (!ok || d == strconv.Itoa(p.Clone.Depth)) &&
		okv == p.Clone.SkipVerify && okw == okv && (!okv || v == "true" && w == "true")
}

// credentials: the credentials file is the last file of the specification and
// the only one of the clone step; without credentials there is none.
func credentials(spec *engine.Spec, dst *engine.Step, data []byte, files int) bool {
	if len(data) == 0 {
		return len(dst.Files) == 0 && len(spec.Files) == files
	}
	return len(dst.Files) == 1 && dst.Files[0].Name == ".git-credentials" && dst.Files[0].Path == "/root/.git-credentials" &&
		len(spec.Files) == files+1 && spec.Files[files].Metadata.Name == ".git-credentials" && string(spec.Files[files].Data) == string(data)
}

func P_C18_clonepull(p *yaml.Pipeline, skip, priv func(*yaml.Container) bool) {
	vRequire(!p.Clone.Disable)
	spec := anyCompiler(skip, priv).Compile(p)
	vEnsure("the clone step never pulls an image it has", spec.Steps[0].Docker.PullPolicy == engine.PullIfNotExists)
}

// N_C18_compiled: bounded, on the compiled code only.
func N_C18_compiled(p *yaml.Pipeline, data []byte) {
	c := &Compiler{GitCredentialsFunc: func() []byte { return data }}
	spec := c.Compile(p)
	vEnsure("the clone step", p.Clone.Disable || cloneEnv(p, spec.Steps[0]) && (len(data) == 0 && len(spec.Steps[0].Files) == 0 ||
		len(data) != 0 && len(spec.Steps[0].Files) == 1 && spec.Files[0].Metadata.Name == ".git-credentials" && string(spec.Files[0].Data) == string(data)))
	vEnsure("every container keeps its settings", perStep(p, spec, func(src *yaml.Container, dst *engine.Step, service bool) bool {
		if !sameResources(src, dst) || !sameStrs(src.DNS, dst.Docker.DNS) {
			return false
		}
		if !service && src.Build != nil {
			return len(dst.Docker.Args) == 1 && dst.Docker.Args[0] == "--build"
		}
		return len(dst.Docker.Ports) == len(src.Ports) && dst.Docker.Network == src.Network && dst.Docker.User == src.User &&
			sameStrs(src.DNSSearch, dst.Docker.DNSSearch) && sameStrs(src.ExtraHosts, dst.Docker.ExtraHosts) &&
			dst.Docker.PullPolicy == toPullPolicy(src) &&
			(len(src.Commands) > 0 || sameStrs(src.Command, dst.Docker.Args) && sameStrs(src.Entrypoint, dst.Docker.Command))
	}))
}
