//go:build go1.18

package yaml

import (
	"fmt"
	"strings"

	droneyaml "github.com/drone/drone-yaml/yaml"

	"github.com/buildkite/yaml"
)

func sameList(a, b []string) bool {
	return len(a) == len(b) && vForall(len(a), func(i int) bool { return a[i] == b[i] })
}

// the plain fields of a container
func P_C24_fields(from *Container) {
	vRequire(from != nil)
	to := toContainer(from)
	vEnsure("name and image", to.Name == from.Name && to.Image == from.Image)
	vEnsure("flags", to.Detach == from.Detached && to.Privileged == from.Privileged)
	vEnsure("commands", sameList(to.Commands, from.Commands))
	vEnsure("command and entrypoint", sameList(to.Command, from.Command) && sameList(to.Entrypoint, from.Entrypoint))
	vEnsure("network", sameList(to.DNS, from.DNS) && sameList(to.DNSSearch, from.DNSSearch) && sameList(to.ExtraHosts, from.ExtraHosts))
	vEnsure("pull", from.Pull && to.Pull == "always" || !from.Pull && to.Pull == "if-not-exists")
}

func vAsked(e string) string {
	if e == "deploy" || e == "deployment" {
		return "promote"
	}
	return e
}

func P_C24_events(events []string) {
	vNoPanic()
	was := vOld(events)
	got := toPromote(events)
	vEnsure("as many events", len(got) == len(was))
	vEnsure("every event, deployments as promotions", vForall(len(was), func(i int) bool { return got[i] == vAsked(was[i]) }))
}

func P_C24_conditions(from Constraints) {
	vNoPanic()
	in, ex := vOld(from.Event.Include), vOld(from.Event.Exclude)
	to := toConditions(from)
	vEnsure("ref", sameList(to.Ref.Include, from.Ref.Include) && sameList(to.Ref.Exclude, from.Ref.Exclude))
	vEnsure("repo", sameList(to.Repo.Include, from.Repo.Include) && sameList(to.Repo.Exclude, from.Repo.Exclude))
	vEnsure("instance", sameList(to.Instance.Include, from.Instance.Include) && sameList(to.Instance.Exclude, from.Instance.Exclude))
	vEnsure("target", sameList(to.Target.Include, from.Environment.Include) && sameList(to.Target.Exclude, from.Environment.Exclude))
	vEnsure("branch", sameList(to.Branch.Include, from.Branch.Include) && sameList(to.Branch.Exclude, from.Branch.Exclude))
	vEnsure("status", sameList(to.Status.Include, from.Status.Include) && sameList(to.Status.Exclude, from.Status.Exclude))
	vEnsure("event", len(to.Event.Include) == len(in) && len(to.Event.Exclude) == len(ex) &&
		vForall(len(in), func(i int) bool { return to.Event.Include[i] == vAsked(in[i]) }) &&
		vForall(len(ex), func(i int) bool { return to.Event.Exclude[i] == vAsked(ex[i]) }))
	vEnsure("matrix", vSame(to.Matrix, from.Matrix))
	vEnsure("nothing is added", len(to.Action.Include) == 0 && len(to.Action.Exclude) == 0 && len(to.Cron.Include) == 0 &&
		len(to.Cron.Exclude) == 0 && len(to.Paths.Include) == 0 && len(to.Paths.Exclude) == 0)
}

// a secret that is the last one for its variable, when no other has the same
func later(l []*Secret, i int) bool {
	return vExists(len(l), func(j int) bool {
		return j > i && strings.ToUpper(l[j].Target) == strings.ToUpper(l[i].Target)
	})
}

func P_C24_environment(from *Container) {
	vRequire(from != nil)
	l := from.Secrets.Secrets
	vRequire(vForall(len(l), func(i int) bool { return l[i] != nil }))
	vNoPanic()
	got := toEnvironment(from)
	vEnsure("every secret under its target in upper case", vForall(len(l), func(i int) bool {
		v, ok := got[strings.ToUpper(l[i].Target)]
		return later(l, i) || ok && v.Secret == l[i].Source && v.Value == ""
	}))
	vEnsure("every variable that is no secret", vForallKey(from.Environment.Map, func(k string) bool {
		v, ok := got[k]
		return ok && (vExists(len(l), func(j int) bool { return strings.ToUpper(l[j].Target) == k }) || v.Value == from.Environment.Map[k] && v.Secret == "")
	}))
	vEnsure("nothing else", vForallKey(got, func(k string) bool {
		_, ok := from.Environment.Map[k]
		return ok || vExists(len(l), func(j int) bool { return strings.ToUpper(l[j].Target) == k })
	}))
	vEnsure("the configuration is left alone", vUnchanged())
}

func P_C24_settings(from map[string]interface{}) {
	vNoPanic()
	got := toSettings(from)
	vEnsure("every setting", vForallKey(from, func(k string) bool {
		p, ok := got[k]
		return ok && p != nil && vSame(p.Value, from[k]) && p.Secret == ""
	}))
	vEnsure("nothing else", vForallKey(got, func(k string) bool {
		_, ok := from[k]
		return ok
	}))
	vEnsure("the configuration is left alone", vUnchanged())
}

func P_C24_mounts(from []*Volume) {
	vRequire(vForall(len(from), func(i int) bool { return from[i] != nil }))
	vNoPanic()
	got := toVolumeMounts(from)
	vEnsure("one mount per volume", len(got) == len(from))
	vEnsure("of the volume of its source, at its destination", vForall(len(from), func(i int) bool {
		return got[i] != nil && got[i].Name == fmt.Sprintf("%x", from[i].Source) && got[i].MountPath == from[i].Destination
	}))
	vEnsure("the configuration is left alone", vUnchanged())
}

func vWhole(l []*Container) bool {
	return vForall(len(l), func(i int) bool {
		return l[i] != nil && vForall(len(l[i].Volumes), func(j int) bool { return l[i].Volumes[j] != nil })
	})
}

func P_C24_volumes(from *Config) {
	vRequire(from != nil && vWhole(from.Pipeline.Containers) && vWhole(from.Services.Containers))
	vNoPanic()
	to := toVolumes(from)
	vEnsure("every volume is the host path its name stands for", vForall(len(to), func(k int) bool {
		return to[k] != nil && to[k].HostPath != nil && to[k].EmptyDir == nil && to[k].Name == fmt.Sprintf("%x", to[k].HostPath.Path)
	}))
	vEnsure("the configuration is left alone", vUnchanged())
}

func P_C24_secrets(from *Config) {
	vRequire(from != nil)
	vNoPanic()
	got := toSecrets(from)
	vEnsure("one resource per secret", len(got) == len(from.Secrets))
	vEnsure("each is a secret of the configuration", vForall(len(got), func(i int) bool {
		s, ok := from.Secrets[got[i].Name]
		path := s.Vault
		if s.Path != "" {
			path = s.Path
		}
		name := ""
		if s.Driver == "vault" {
			path, name = s.DriverOpts["path"], s.DriverOpts["key"]
		}
		return ok && got[i].Kind == "secret" && got[i].Get.Path == path && got[i].Get.Name == name && got[i].Data == ""
	}))
	vEnsure("the configuration is left alone", vUnchanged())
}

func N_C24_secrets(from *Config) {
	vRequire(from != nil)
	got := toSecrets(from)
	seen := map[string]bool{}
	for i, s := range got {
		seen[s.Name] = true
		vEnsure("secrets are listed by name", i == 0 || got[i-1].Name < s.Name)
	}
	for k := range from.Secrets {
		vEnsure("every secret of the configuration", seen[k])
	}
}

func N_C24_volumes(from *Config) {
	vRequire(from != nil && vWhole(from.Pipeline.Containers) && vWhole(from.Services.Containers))
	to := toVolumes(from)
	path := map[string]string{}
	for _, v := range to {
		_, twice := path[v.Name]
		vEnsure("no volume is declared twice", !twice)
		path[v.Name] = v.HostPath.Path
	}
	used := map[string]bool{}
	for _, l := range [][]*Container{from.Pipeline.Containers, from.Services.Containers} {
		for _, c := range l {
			for i, m := range toContainer(c).Volumes {
				p, ok := path[m.Name]
				used[m.Name] = true
				vEnsure("every mount names the volume of its host path", ok && p == c.Volumes[i].Source && m.MountPath == c.Volumes[i].Destination)
			}
		}
	}
	vEnsure("every volume is mounted", len(used) == len(path))
}

// whole files
func N_C24_file(text string) {
	out, err := Convert([]byte(text), "")
	if err != nil {
		return
	}
	from := new(Config)
	if yaml.Unmarshal([]byte(text), from) != nil || from.Matrix != nil || hasMergeKeys([]byte(text)) {
		return
	}
	m, err := droneyaml.ParseBytes(out)
	vEnsure("the converted file can be read", err == nil)
	vEnsure("one pipeline and one resource per secret", len(m.Resources) == 1+len(from.Secrets))
	p, ok := m.Resources[0].(*droneyaml.Pipeline)
	vEnsure("the first resource is the pipeline", ok)
	check := func(to []*droneyaml.Container, from []*Container) {
		vEnsure("as many containers", len(to) == len(from))
		names := map[string]bool{}
		for i, c := range from {
			n := c.Name
			if names[n] {
				n = fmt.Sprintf("%s_%d", n, i)
			}
			names[n] = true
			vEnsure("the containers in order, names made unique", to[i].Name == n || to[i].Name == c.Name)
			vEnsure("the image of each", to[i].Image == c.Image)
			vEnsure("the commands of each", sameList(to[i].Commands, c.Commands))
			vEnsure("the flags of each", to[i].Privileged == c.Privileged && to[i].Detach == c.Detached)
			env := toEnvironment(c)
			vEnsure("the variables of each", len(to[i].Environment) == len(env))
			for k, v := range env {
				w := to[i].Environment[k]
				vEnsure("the variables of each", w != nil && w.Value == v.Value && w.Secret == v.Secret)
			}
			vEnsure("the settings of each", len(to[i].Settings) == len(c.Vargs))
			for k, v := range c.Vargs {
				w := to[i].Settings[k]
				vEnsure("the settings of each", w != nil && fmt.Sprint(w.Value) == fmt.Sprint(v))
			}
			mounts := toVolumeMounts(c.Volumes)
			vEnsure("the mounts of each", len(to[i].Volumes) == len(mounts))
			for j, v := range mounts {
				vEnsure("the mounts of each", *to[i].Volumes[j] == *v)
			}
			when := toConditions(c.Constraints)
			vEnsure("the events of each", sameList(to[i].When.Event.Include, when.Event.Include) && sameList(to[i].When.Event.Exclude, when.Event.Exclude))
			vEnsure("the branches of each", sameList(to[i].When.Branch.Include, when.Branch.Include) && sameList(to[i].When.Branch.Exclude, when.Branch.Exclude))
			vEnsure("the status of each", sameList(to[i].When.Status.Include, when.Status.Include))
		}
	}
	check(p.Steps, append(append([]*Container{}, from.Clone.Containers...), from.Pipeline.Containers...))
	check(p.Services, from.Services.Containers)
	vols := toVolumes(from)
	vEnsure("the volumes", len(p.Volumes) == len(vols))
	for i, v := range vols {
		w := p.Volumes[i]
		vEnsure("the volumes", w.Name == v.Name && w.HostPath != nil && w.HostPath.Path == v.HostPath.Path)
	}
	for i, v := range toSecrets(from) {
		w, ok := m.Resources[1+i].(*droneyaml.Secret)
		vEnsure("the secrets", ok && w.Name == v.Name && w.Get == v.Get)
	}
	if len(from.Branches.Include) > 0 && len(from.Branches.Exclude) == 0 {
		refs := map[string]bool{}
		for _, r := range p.Trigger.Ref.Include {
			refs[r] = true
		}
		for _, b := range from.Branches.Include {
			vEnsure("the branches", refs["refs/heads/"+b])
		}
	} else {
		vEnsure("the branches", sameList(p.Trigger.Branch.Include, from.Branches.Include) && sameList(p.Trigger.Branch.Exclude, from.Branches.Exclude))
	}
	vEnsure("clone steps replace the clone step", p.Clone.Disable == (len(from.Clone.Containers) != 0))
}
