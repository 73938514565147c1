//go:build go1.18

package transform

import (
	"os"
	"strings"

	"github.com/drone/drone-runtime/engine"
)

func P_C20_auths(spec *engine.Spec, auths []*engine.DockerAuth) {
	vRequire(spec.Docker != nil && vForall(len(spec.Docker.Auths), func(i int) bool { return spec.Docker.Auths[i] != nil }))
	old := vOld(spec)
	n := len(spec.Docker.Auths)
	WithAuths(auths)(spec)
	now := spec.Docker.Auths
	vEnsure("the credentials are added at the end, in order", len(now) == n+len(auths) && vForall(n, func(i int) bool {
		return now[i].Address == old.Docker.Auths[i].Address && now[i].Username == old.Docker.Auths[i].Username && now[i].Password == old.Docker.Auths[i].Password
	}) && vForall(len(auths), func(i int) bool { return now[n+i] == auths[i] }))
}

func P_C20_authsfunc(spec *engine.Spec, auths []*engine.DockerAuth) {
	vRequire(spec.Docker != nil)
	n := len(spec.Docker.Auths)
	WithAuthsFunc(func() []*engine.DockerAuth { return auths })(spec)
	now := spec.Docker.Auths
	vEnsure("the credentials are added at the end, in order", len(now) == n+len(auths) &&
		vForall(len(auths), func(i int) bool { return now[n+i] == auths[i] }))
}

func P_C20_environ(spec *engine.Spec, envs map[string]string) {
	vRequire(distinct(spec) && apart(spec) && vForall(len(spec.Steps), func(i int) bool { return vApart(envs, spec.Steps[i].Envs) }))
	old := vOld(spec)
	WithEnviron(envs)(spec)
	vEnsure("every step gets every variable", vForall(len(spec.Steps), func(i int) bool {
		return vForallKey(envs, func(k string) bool {
			v, ok := spec.Steps[i].Envs[k]
			return ok && v == envs[k]
		})
	}))
	vEnsure("other variables stay as they are", len(old.Steps) == len(spec.Steps) && vForall(len(spec.Steps), func(i int) bool {
		return vForallKey(old.Steps[i].Envs, func(k string) bool {
			_, set := envs[k]
			v, ok := spec.Steps[i].Envs[k]
			return set || ok && v == old.Steps[i].Envs[k]
		})
	}))
}

func P_C20_limits(spec *engine.Spec, mem, cpu int64) {
	vRequire(distinct(spec))
	old := vOld(spec)
	WithLimits(mem, cpu)(spec)
	vEnsure("the steps stay", len(old.Steps) == len(spec.Steps) && vForall(len(spec.Steps), func(i int) bool {
		return sameStep(old.Steps[i], spec.Steps[i])
	}))
	vEnsure("every step gets the limits if there are any", mem == 0 && cpu == 0 || vForall(len(spec.Steps), func(i int) bool {
		r := spec.Steps[i].Resources
		return r != nil && r.Limits != nil && r.Limits.Memory == mem && r.Limits.CPU == cpu
	}))
	vEnsure("without limits nothing changes", mem != 0 || cpu != 0 || vForall(len(spec.Steps), func(i int) bool {
		a, b := old.Steps[i].Resources, spec.Steps[i].Resources
		return (a == nil) == (b == nil) && (a == nil || (a.Limits == nil) == (b.Limits == nil) &&
			(a.Limits == nil || a.Limits.Memory == b.Limits.Memory && a.Limits.CPU == b.Limits.CPU))
	}))
}

func P_C20_networks(spec *engine.Spec, networks []string) {
	vRequire(distinct(spec) && apart(spec))
	old := vOld(spec)
	WithNetworks(networks)(spec)
	vEnsure("every step joins the networks after its own", vForall(len(spec.Steps), func(i int) bool {
		a, b := old.Steps[i].Docker.Networks, spec.Steps[i].Docker.Networks
		return len(b) == len(a)+len(networks) && vForall(len(a), func(j int) bool { return a[j] == b[j] }) &&
			vForall(len(networks), func(j int) bool { return b[len(a)+j] == networks[j] })
	}))
}

func netrcEnv(s *engine.Step, machine, username, password string) bool {
	return s.Envs["CI_NETRC_MACHINE"] == machine && s.Envs["CI_NETRC_USERNAME"] == username && s.Envs["CI_NETRC_PASSWORD"] == password &&
		s.Envs["DRONE_NETRC_MACHINE"] == machine && s.Envs["DRONE_NETRC_USERNAME"] == username && s.Envs["DRONE_NETRC_PASSWORD"] == password
}

func P_C20_netrc(spec *engine.Spec, machine, username, password string) {
	vRequire(distinct(spec))
	old := vOld(spec)
	WithNetrc(machine, username, password)(spec)
	vEnsure("every step gets the credentials", username == "" || password == "" || vForall(len(spec.Steps), func(i int) bool {
		return netrcEnv(spec.Steps[i], machine, username, password)
	}))
	vEnsure("without user name or password no step changes", username != "" && password != "" || vForall(len(spec.Steps), func(i int) bool {
		return vForallKey(spec.Steps[i].Envs, func(k string) bool {
			v, ok := old.Steps[i].Envs[k]
			return ok && v == spec.Steps[i].Envs[k]
		})
	}))
}

func P_C20_secrets(spec *engine.Spec, secrets map[string]string) {
	n := len(spec.Secrets)
	WithSecrets(secrets)(spec)
	now := spec.Secrets
	vEnsure("every secret is added with its value", vForallKey(secrets, func(k string) bool {
		return vExists(len(now)-n, func(j int) bool {
			return now[n+j].Metadata.Name == k && now[n+j].Data == secrets[k] && now[n+j].Metadata.Namespace == spec.Metadata.Namespace
		})
	}))
	vEnsure("nothing else is added", len(now) == n+len(secrets) && vForall(len(now)-n, func(j int) bool {
		v, ok := secrets[now[n+j].Metadata.Name]
		return ok && now[n+j].Data == v
	}))
}

func P_C20_proxy(spec *engine.Spec) {
	vRequire(distinct(spec) && apart(spec))
	WithProxy()(spec)
	upper, lower := os.Getenv("HTTP_PROXY"), os.Getenv("http_proxy")
	want := upper
	if want == "" {
		want = lower
	}
	vEnsure("the proxy of the host reaches every step", want == "" || vForall(len(spec.Steps), func(i int) bool {
		return spec.Steps[i].Envs["http_proxy"] == want && spec.Steps[i].Envs["HTTP_PROXY"] == want
	}))
}

func P_C20_proxies(spec *engine.Spec) {
	vRequire(distinct(spec) && apart(spec))
	WithProxy()(spec)
	no, noLower := os.Getenv("NO_PROXY"), os.Getenv("no_proxy")
	if no == "" {
		no = noLower
	}
	ssl, sslLower := os.Getenv("HTTPS_PROXY"), os.Getenv("https_proxy")
	if ssl == "" {
		ssl = sslLower
	}
	vEnsure("the list of hosts without proxy reaches every step", no == "" || vForall(len(spec.Steps), func(i int) bool {
		return spec.Steps[i].Envs["no_proxy"] == no && spec.Steps[i].Envs["NO_PROXY"] == no
	}))
	vEnsure("the https proxy reaches every step", ssl == "" || vForall(len(spec.Steps), func(i int) bool {
		return spec.Steps[i].Envs["https_proxy"] == ssl && spec.Steps[i].Envs["HTTPS_PROXY"] == ssl
	}))
}

// labelled: every resource has labels of its own (what the compiler produces).
func labelled(spec *engine.Spec) bool {
	vs := spec.Docker.Volumes
	return spec.Docker != nil && spec.Metadata.Labels != nil && vForall(len(spec.Steps), func(i int) bool {
		a := spec.Steps[i].Metadata.Labels
		return a != nil && vApart(a, spec.Metadata.Labels) && vForall(i, func(j int) bool { return vApart(a, spec.Steps[j].Metadata.Labels) }) &&
			vForall(len(vs), func(j int) bool { return vs[j] == nil || vApart(a, vs[j].Metadata.Labels) })
	}) && vForall(len(vs), func(i int) bool {
		return vs[i] != nil && vs[i].Metadata.Labels != nil && vApart(vs[i].Metadata.Labels, spec.Metadata.Labels) &&
			vForall(i, func(j int) bool { return vs[i] != vs[j] && vApart(vs[i].Metadata.Labels, vs[j].Metadata.Labels) })
	})
}

func P_C20_labels(spec *engine.Spec, labels map[string]string) {
	vRequire(distinct(spec) && labelled(spec) && vApart(labels, spec.Metadata.Labels) &&
		vForall(len(spec.Steps), func(i int) bool { return vApart(labels, spec.Steps[i].Metadata.Labels) }) &&
		vForall(len(spec.Docker.Volumes), func(i int) bool { return vApart(labels, spec.Docker.Volumes[i].Metadata.Labels) }))
	WithLables(labels)(spec)
	vEnsure("the specification gets every label", vForallKey(labels, func(k string) bool { return spec.Metadata.Labels[k] == labels[k] }))
	vEnsure("every step gets every label", vForall(len(spec.Steps), func(i int) bool {
		return vForallKey(labels, func(k string) bool { return spec.Steps[i].Metadata.Labels[k] == labels[k] })
	}))
}

// N_C20_labels: bounded.
func N_C20_labels(spec *engine.Spec, labels map[string]string) {
	vRequire(distinct(spec) && labelled(spec))
	WithLables(labels)(spec)
	vEnsure("every volume gets every label", vForall(len(spec.Docker.Volumes), func(i int) bool {
		return vForallKey(labels, func(k string) bool { return spec.Docker.Volumes[i].Metadata.Labels[k] == labels[k] })
	}))
}

// needed: a step that may run takes the named secret.
func needed(spec *engine.Spec, name string) bool {
	return vExists(len(spec.Steps), func(i int) bool {
		s := spec.Steps[i]
		return s.RunPolicy != engine.RunNever && vExists(len(s.Secrets), func(j int) bool { return s.Secrets[j].Name == name })
	})
}

func P_C20_volumes(spec *engine.Spec, volumes map[string]string) {
	vRequire(spec.Docker != nil && distinct(spec))
	n := len(spec.Docker.Volumes)
	WithVolumes(volumes)(spec)
	now := spec.Docker.Volumes
	vEnsure("one host volume per entry", len(now) == n+len(volumes) && vForall(len(now)-n, func(j int) bool {
		_, ok := volumes[now[n+j].HostPath.Path]
		return ok && now[n+j].EmptyDir == nil
	}) && vForallKey(volumes, func(k string) bool {
		return vExists(len(now)-n, func(j int) bool { return now[n+j].HostPath.Path == k })
	}))
}

func secretsFound(spec *engine.Spec) bool {
	return vForall(len(spec.Steps), func(i int) bool {
		s := spec.Steps[i]
		return s != nil && vForall(len(s.Secrets), func(j int) bool { return s.Secrets[j] != nil })
	})
}

func P_C20_secretfunc(spec *engine.Spec, data string) {
	vRequire(secretsFound(spec))
	n := len(spec.Secrets)
	WithSecretFunc(func(name string) *engine.Secret {
		return &engine.Secret{Metadata: engine.Metadata{Name: name}, Data: data}
	})(spec)
	now := spec.Secrets
	vEnsure("only secrets of steps that may run are added", vForall(len(now)-n, func(j int) bool {
		return needed(spec, now[n+j].Metadata.Name) && now[n+j].Data == data && now[n+j].Metadata.Namespace == spec.Metadata.Namespace
	}))
	vEnsure("every secret of a step that may run is added", vForall(len(spec.Steps), func(i int) bool {
		s := spec.Steps[i]
		return s.RunPolicy == engine.RunNever || vForall(len(s.Secrets), func(j int) bool {
			return vExists(len(now)-n, func(q int) bool { return now[n+q].Metadata.Name == s.Secrets[j].Name })
		})
	}))
	vEnsure("no secret is added twice", vForall(len(now)-n, func(a int) bool {
		return vForall(a, func(b int) bool { return now[n+a].Metadata.Name != now[n+b].Metadata.Name })
	}))
}

func P_C20_nosecret(spec *engine.Spec) {
	vRequire(secretsFound(spec))
	n := len(spec.Secrets)
	WithSecretFunc(func(name string) *engine.Secret { return nil })(spec)
	vEnsure("a secret that is not found is left out", len(spec.Secrets) == n)
}

// N_C20_mounts: bounded.
func N_C20_mounts(spec *engine.Spec, volumes map[string]string) {
	vRequire(spec.Docker != nil && distinct(spec))
	old := vOld(spec)
	n := len(spec.Docker.Volumes)
	WithVolumes(volumes)(spec)
	now := spec.Docker.Volumes
	vEnsure("every step mounts every volume after its own mounts", vForall(len(spec.Steps), func(i int) bool {
		a, b := len(old.Steps[i].Volumes), spec.Steps[i].Volumes
		return len(b) == a+len(volumes) && vForall(len(volumes), func(j int) bool {
			return b[a+j].Name == now[n+j].Metadata.Name && b[a+j].Path == volumes[now[n+j].HostPath.Path]
		})
	}))
}

// N_C20_slice: bounded (strings.Split); every host:container pair becomes a volume.
func N_C20_slice(spec *engine.Spec, pairs map[string]string, junk []string) {
	vRequire(spec.Docker != nil && distinct(spec) && vForallKey(pairs, func(k string) bool {
		return !strings.Contains(k, ":") && !strings.Contains(pairs[k], ":")
	}) && vForall(len(junk), func(i int) bool { return strings.Count(junk[i], ":") != 1 }))
	var list []string
	for k, v := range pairs {
		list = append(list, k+":"+v)
	}
	list = append(list, junk...)
	n := len(spec.Docker.Volumes)
	WithVolumeSlice(list)(spec)
	now := spec.Docker.Volumes
	vEnsure("one host volume per pair and nothing for anything else", len(now) == n+len(pairs) && vForall(len(now)-n, func(j int) bool {
		_, ok := pairs[now[n+j].HostPath.Path]
		return ok
	}))
	vEnsure("every step mounts it at the second half", vForall(len(spec.Steps), func(i int) bool {
		b := spec.Steps[i].Volumes
		return vForall(len(pairs), func(j int) bool {
			m := b[len(b)-len(pairs)+j]
			return m.Name == now[n+j].Metadata.Name && m.Path == pairs[now[n+j].HostPath.Path]
		})
	}))
}

// N_C20_combine: bounded; the functions run once each, in order.
func N_C20_combine(spec *engine.Spec, names []string) {
	var got []string
	var fns []func(*engine.Spec)
	same := true
	for _, name := range names {
		name := name
		fns = append(fns, func(s *engine.Spec) { got = append(got, name); same = same && s == spec })
	}
	Combine(fns...)(spec)
	vEnsure("every function runs once, in order, on the same specification", same && len(got) == len(names) &&
		vForall(len(names), func(i int) bool { return got[i] == names[i] }))
}
