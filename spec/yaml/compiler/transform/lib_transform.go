//go:build go1.18

package transform

import "github.com/drone/drone-runtime/engine"

// distinct: no two steps of the specification share their parts (what the
// compiler produces).
func distinct(spec *engine.Spec) bool {
	n := len(spec.Steps)
	return vForall(n, func(i int) bool {
		return spec.Steps[i] != nil && vForall(i, func(j int) bool { return spec.Steps[i] != spec.Steps[j] })
	})
}

func in(names []string, s string) bool {
	return vExists(len(names), func(i int) bool { return names[i] == s })
}

// sameStep: the same step but for the run policy, resources, networks,
// variables, labels, mounts and files, which transforms may change.
func sameStep(a, b *engine.Step) bool {
	return a.Metadata.UID == b.Metadata.UID && a.Metadata.Name == b.Metadata.Name && a.Metadata.Namespace == b.Metadata.Namespace &&
		a.Detach == b.Detach && a.IgnoreErr == b.IgnoreErr && a.WorkingDir == b.WorkingDir && len(a.DependsOn) == len(b.DependsOn) &&
		len(a.Secrets) == len(b.Secrets) && (a.Docker == nil) == (b.Docker == nil) &&
		(a.Docker == nil || a.Docker.Image == b.Docker.Image && a.Docker.Privileged == b.Docker.Privileged && a.Docker.Network == b.Docker.Network &&
			len(a.Docker.Args) == len(b.Docker.Args) && len(a.Docker.Command) == len(b.Docker.Command))
}

// apart: the steps have docker sections and maps of their own (what the
// compiler produces).
func apart(spec *engine.Spec) bool {
	return vForall(len(spec.Steps), func(i int) bool {
		return spec.Steps[i].Docker != nil && spec.Steps[i].Envs != nil && vForall(i, func(j int) bool {
			return spec.Steps[i].Docker != spec.Steps[j].Docker && vApart(spec.Steps[i].Envs, spec.Steps[j].Envs)
		})
	})
}
