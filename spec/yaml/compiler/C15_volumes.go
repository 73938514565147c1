//go:build go1.18

package compiler

import (
	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

func anyBuild(p *yaml.Pipeline) bool {
	return vExists(len(p.Steps), func(i int) bool { return p.Steps[i].Build != nil })
}

func P_C15_volumes(p *yaml.Pipeline, skip, priv func(*yaml.Container) bool) {
	spec := anyCompiler(skip, priv).Compile(p)
	vs := spec.Docker.Volumes
	n := len(p.Volumes)
	vEnsure("the workspace volume comes first", vs[0].Metadata.Name == "workspace" && vs[0].EmptyDir != nil && vs[0].HostPath == nil)
	vEnsure("then one volume per pipeline volume", len(vs) >= 1+n && vForall(n, func(i int) bool {
		return vs[1+i].Metadata.Name == p.Volumes[i].Name
	}))
	vEnsure("volumes have the kind and settings of the pipeline volume", vForall(n, func(i int) bool {
		src, dst := p.Volumes[i], vs[1+i]
		if src.EmptyDir != nil {
			return dst.HostPath == nil && dst.EmptyDir != nil && dst.EmptyDir.Medium == src.EmptyDir.Medium && dst.EmptyDir.SizeLimit == int64(src.EmptyDir.SizeLimit)
		}
		if src.HostPath != nil {
			return dst.EmptyDir == nil && dst.HostPath != nil && dst.HostPath.Path == src.HostPath.Path
		}
		return dst.EmptyDir == nil && dst.HostPath == nil
	}))
	vEnsure("without build steps there is no other volume", anyBuild(p) || len(vs) == 1+n)
	vEnsure("with build steps there is the docker socket", !anyBuild(p) || len(vs) == 2+n && vs[1+n].Metadata.Name == "_docker_socket" &&
		vs[1+n].EmptyDir == nil && vs[1+n].HostPath != nil && vs[1+n].HostPath.Path == "/var/run/docker.sock")
}


// mounted: the mounts of one compiled container.
func mounted(src *yaml.Container, dst *engine.Step, build bool, base string) bool {
	n := len(dst.Volumes)
	last := n >= 1 && dst.Volumes[n-1].Name == "workspace" && dst.Volumes[n-1].Path == base
	if build {
		return n == 2 && last && dst.Volumes[0].Name == "_docker_socket" && dst.Volumes[0].Path == "/var/run/docker.sock"
	}
	return last && vForall(n, func(j int) bool { return dst.Volumes[j].Name != "_docker_socket" })
}

// only: every mount but the workspace is one of the definition.
func only(src *yaml.Container, dst *engine.Step) bool {
	return vForall(len(dst.Volumes)-1, func(j int) bool {
		return vExists(len(src.Volumes), func(k int) bool {
			return dst.Volumes[j].Name == src.Volumes[k].Name && dst.Volumes[j].Path == src.Volumes[k].MountPath
		})
	})
}

// all: every mount of the definition is there.
func all(src *yaml.Container, dst *engine.Step) bool {
	return vForall(len(src.Volumes), func(k int) bool {
		return src.Volumes[k].Name == "_docker_socket" || vExists(len(dst.Volumes), func(j int) bool {
			return dst.Volumes[j].Name == src.Volumes[k].Name && dst.Volumes[j].Path == src.Volumes[k].MountPath
		})
	})
}

func P_C15_step(spec *engine.Spec, src *yaml.Container, base, path, full string) {
	dst := createStep(spec, src)
	MountWorkspace(dst, base, path, full)
	vEnsure("a step ends with the workspace mount and never mounts the docker socket", mounted(src, dst, false, base))
	vEnsure("every other mount is one of the definition", only(src, dst))
	vEnsure("every mount of the definition is there", all(src, dst))
}

func P_C15_build(spec *engine.Spec, src *yaml.Container, base, path, full string) {
	dst := createBuildStep(spec, src)
	MountWorkspace(dst, base, path, full)
	vEnsure("a build step mounts the docker socket and the workspace", mounted(src, dst, true, base))
}

func P_C15_workdir(p *yaml.Pipeline, skip, priv func(*yaml.Container) bool) {
	spec := anyCompiler(skip, priv).Compile(p)
	_, _, full := createWorkspace(p)
	vEnsure("working directory", perStep(p, spec, func(src *yaml.Container, dst *engine.Step, service bool) bool {
		return service || src.Detach || dst.WorkingDir == full
	}))
}

// N_C15_mounts: bounded, on the compiled code only.
func N_C15_mounts(p *yaml.Pipeline, skip, priv func(*yaml.Container) bool) {
	spec := anyCompiler(skip, priv).Compile(p)
	base, _, _ := createWorkspace(p)
	vEnsure("the clone step mounts the workspace only", p.Clone.Disable ||
		len(spec.Steps[0].Volumes) == 1 && spec.Steps[0].Volumes[0].Name == "workspace" && spec.Steps[0].Volumes[0].Path == base)
	vEnsure("mounts of every compiled step", perStep(p, spec, func(src *yaml.Container, dst *engine.Step, service bool) bool {
		build := !service && src.Build != nil
		return mounted(src, dst, build, base) && (build || only(src, dst) && all(src, dst))
	}))
}

func P_C15_hostworkspace(spec *engine.Spec, workdir string) {
	vRequire(spec.Docker != nil)
	n := len(spec.Docker.Volumes)
	old := spec.Docker.Volumes
	CreateHostWorkspace(workdir)(spec)
	vs := spec.Docker.Volumes
	vEnsure("two volumes are added", len(vs) == n+2 && vForall(n, func(i int) bool { return vs[i] == old[i] }))
	vEnsure("the workspace and the host directory", vs[n].Metadata.Name == "workspace" && vs[n].EmptyDir != nil && vs[n].HostPath == nil &&
		vs[n+1].Metadata.Name == "host" && vs[n+1].EmptyDir == nil && vs[n+1].HostPath != nil && vs[n+1].HostPath.Path == workdir)
	vEnsure("both belong to the pipeline and can be labelled", vs[n].Metadata.Namespace == spec.Metadata.Namespace && vs[n+1].Metadata.Namespace == spec.Metadata.Namespace &&
		vs[n].Metadata.Labels != nil && vs[n+1].Metadata.Labels != nil)
}

func P_C15_hostmount(step *engine.Step, base, path, full string) {
	n := len(step.Volumes)
	MountHostWorkspace(step, base, path, full)
	m := step.Volumes
	vEnsure("the host directory is the working directory", len(m) >= n+1 && m[n].Name == "host" && m[n].Path == full)
	vEnsure("the workspace is mounted when the working directory is below it", len(m) == n+1 && path == "" || len(m) == n+2 && path != "" && m[n+1].Name == "workspace" && m[n+1].Path == base)
}
