//go:build go1.18

package transform

import "github.com/drone/drone-runtime/engine"


func P_C19_include(spec *engine.Spec, names []string) {
	vRequire(distinct(spec))
	n := len(spec.Steps)
	old := vOld(spec)
	Include(names)(spec)
	vEnsure("the steps stay", len(spec.Steps) == n)
	vEnsure("nothing but the run policy changes", vForall(n, func(i int) bool {
		a, b := old.Steps[i], spec.Steps[i]
		return sameStep(a, b) && len(a.Envs) == len(b.Envs) && len(a.Volumes) == len(b.Volumes) && len(a.Files) == len(b.Files)
	}))
	vEnsure("include keeps exactly the clone step and the named steps", vForall(n, func(i int) bool {
		a, b := old.Steps[i], spec.Steps[i]
		if len(names) == 0 || a.Metadata.Name == "clone" || in(names, a.Metadata.Name) {
			return b.RunPolicy == a.RunPolicy
		}
		return b.RunPolicy == engine.RunNever
	}))
}

func P_C19_exclude(spec *engine.Spec, names []string) {
	vRequire(distinct(spec))
	n := len(spec.Steps)
	old := vOld(spec)
	Exclude(names)(spec)
	vEnsure("the steps stay", len(spec.Steps) == n)
	vEnsure("nothing but the run policy changes", vForall(n, func(i int) bool {
		a, b := old.Steps[i], spec.Steps[i]
		return sameStep(a, b) && len(a.Envs) == len(b.Envs) && len(a.Volumes) == len(b.Volumes) && len(a.Files) == len(b.Files)
	}))
	vEnsure("exclude stops exactly the named steps other than the clone step", vForall(n, func(i int) bool {
		a, b := old.Steps[i], spec.Steps[i]
		if a.Metadata.Name == "clone" || !in(names, a.Metadata.Name) {
			return b.RunPolicy == a.RunPolicy
		}
		return b.RunPolicy == engine.RunNever
	}))
}

func P_C19_resume(spec *engine.Spec, name string) {
	vRequire(distinct(spec))
	n := len(spec.Steps)
	old := vOld(spec)
	ResumeAt(name)(spec)
	vEnsure("the steps stay", len(spec.Steps) == n)
	vEnsure("nothing but the run policy changes", vForall(n, func(i int) bool {
		a, b := old.Steps[i], spec.Steps[i]
		return sameStep(a, b) && len(a.Envs) == len(b.Envs) && len(a.Volumes) == len(b.Volumes) && len(a.Files) == len(b.Files)
	}))
	vEnsure("resume stops exactly the steps before the named one other than the clone step", vForall(n, func(i int) bool {
		a, b := old.Steps[i], spec.Steps[i]
		if name == "" || a.Metadata.Name == "clone" || vExists(i+1, func(j int) bool { return old.Steps[j].Metadata.Name == name }) {
			return b.RunPolicy == a.RunPolicy
		}
		return b.RunPolicy == engine.RunNever
	}))
}
