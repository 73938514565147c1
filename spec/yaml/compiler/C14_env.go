//go:build go1.18

package compiler

import (
	"strconv"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

func plugin(key string) string { return "PLUGIN_" + strings.ToUpper(key) }

// winScript: the variables the windows script setup defines itself.
func winScript(spec *engine.Spec, src *yaml.Container, k string) bool {
	return len(src.Commands) > 0 && spec.Platform.OS == "windows" && (k == "CI_SCRIPT" || k == "SHELL")
}

// plain: the variable, or setting, is defined and has a literal value.
func plainVar(src *yaml.Container, k string) bool {
	return src.Environment[k] != nil && src.Environment[k].Secret == ""
}

func plainSetting(src *yaml.Container, k string) bool {
	return src.Settings[k] != nil && src.Settings[k].Secret == ""
}

func P_C14_env(spec *engine.Spec, src *yaml.Container) {
	dst := createStep(spec, src)
	vEnsure("every literal environment variable is passed with its value", vForallKey(src.Environment, func(k string) bool {
		v := src.Environment[k]
		if v == nil || v.Secret != "" || winScript(spec, src, k) || vExistsKey(src.Settings, func(s string) bool { return plugin(s) == k }) {
			return true
		}
		w, ok := dst.Envs[k]
		return ok && w == v.Value
	}))
}

func P_C14_settings(spec *engine.Spec, src *yaml.Container) {
	dst := createStep(spec, src)
	vEnsure("every literal setting is passed as a PLUGIN_ variable with its encoded value", vForallKey(src.Settings, func(k string) bool {
		v := src.Settings[k]
		if v == nil || v.Secret != "" || winScript(spec, src, plugin(k)) ||
			vExistsKey(src.Settings, func(s string) bool { return s != k && plugin(s) == plugin(k) }) {
			return true
		}
		w, ok := dst.Envs[plugin(k)]
		return ok && w == encode(v.Value)
	}))
}

func P_C14_only(spec *engine.Spec, src *yaml.Container) {
	dst := createStep(spec, src)
	vEnsure("no other variable is passed", vForallKey(dst.Envs, func(k string) bool {
		return winScript(spec, src, k) || plainVar(src, k) ||
			vExistsKey(src.Settings, func(s string) bool { return plainSetting(src, s) && plugin(s) == k })
	}))
}

func P_C14_secrets(spec *engine.Spec, src *yaml.Container) {
	dst := createStep(spec, src)
	vEnsure("every variable from a secret becomes a secret reference", vForallKey(src.Environment, func(k string) bool {
		v := src.Environment[k]
		return v == nil || v.Secret == "" || vExists(len(dst.Secrets), func(j int) bool {
			return dst.Secrets[j].Env == k && dst.Secrets[j].Name == v.Secret
		})
	}))
	vEnsure("every setting from a secret becomes a secret reference", vForallKey(src.Settings, func(k string) bool {
		v := src.Settings[k]
		return v == nil || v.Secret == "" || vExists(len(dst.Secrets), func(j int) bool {
			return dst.Secrets[j].Env == plugin(k) && dst.Secrets[j].Name == v.Secret
		})
	}))
	vEnsure("there is no other secret reference", vForall(len(dst.Secrets), func(j int) bool {
		return vExistsKey(src.Environment, func(k string) bool {
			return src.Environment[k] != nil && dst.Secrets[j].Env == k && dst.Secrets[j].Name == src.Environment[k].Secret && src.Environment[k].Secret != ""
		}) || vExistsKey(src.Settings, func(k string) bool {
			return src.Settings[k] != nil && dst.Secrets[j].Env == plugin(k) && dst.Secrets[j].Name == src.Settings[k].Secret && src.Settings[k].Secret != ""
		})
	}))
}

func P_C14_encode(v interface{}) {
	out := encode(v)
	s, isString := v.(string)
	b, isBool := v.(bool)
	vEnsure("a string is passed as it is", !isString || out == s)
	n, isInt := v.(int)
	vEnsure("an integer is passed in decimal", !isInt || out == strconv.Itoa(n))
	vEnsure("a boolean is passed as true or false", !isBool || b && out == "true" || !b && out == "false")
}

// reserved: the variables every container gets.
func reserved(k string) bool {
	return k == "DRONE_WORKSPACE_BASE" || k == "DRONE_WORKSPACE_PATH" || k == "DRONE_WORKSPACE" ||
		k == "CI_WORKSPACE_BASE" || k == "CI_WORKSPACE_PATH" || k == "CI_WORKSPACE"
}

func P_C14_workspace(spec *engine.Spec, src *yaml.Container, base, path, full string) {
	dst := createStep(spec, src)
	setupWorkspaceEnv(dst, base, path, full)
	vEnsure("the workspace variables are set", dst.Envs["DRONE_WORKSPACE_BASE"] == base && dst.Envs["DRONE_WORKSPACE_PATH"] == path &&
		dst.Envs["DRONE_WORKSPACE"] == full && dst.Envs["CI_WORKSPACE_BASE"] == base && dst.Envs["CI_WORKSPACE_PATH"] == path && dst.Envs["CI_WORKSPACE"] == full)
	vEnsure("no other variable is passed", vForallKey(dst.Envs, func(k string) bool {
		return reserved(k) || winScript(spec, src, k) || plainVar(src, k) ||
			vExistsKey(src.Settings, func(s string) bool { return plainSetting(src, s) && plugin(s) == k })
	}))
}

// N_C14_env: bounded, on the compiled code only.
func N_C14_env(p *yaml.Pipeline, skip, priv func(*yaml.Container) bool) {
	spec := anyCompiler(skip, priv).Compile(p)
	base, path, full := createWorkspace(p)
	vEnsure("variables of every compiled container", perStep(p, spec, func(src *yaml.Container, dst *engine.Step, service bool) bool {
		ws := dst.Envs["DRONE_WORKSPACE_BASE"] == base && dst.Envs["DRONE_WORKSPACE_PATH"] == path && dst.Envs["DRONE_WORKSPACE"] == full &&
			dst.Envs["CI_WORKSPACE_BASE"] == base && dst.Envs["CI_WORKSPACE_PATH"] == path && dst.Envs["CI_WORKSPACE"] == full
		if !service && src.Build != nil {
			return ws && len(dst.Secrets) == 0
		}
		return ws && vForallKey(src.Environment, func(k string) bool {
			v := src.Environment[k]
			if v == nil || reserved(k) || winScript(spec, src, k) {
				return true
			}
			if v.Secret != "" {
				return vExists(len(dst.Secrets), func(j int) bool { return dst.Secrets[j].Env == k && dst.Secrets[j].Name == v.Secret })
			}
			w, ok := dst.Envs[k]
			return ok && w == v.Value || vExistsKey(src.Settings, func(s string) bool { return plugin(s) == k })
		}) && vForallKey(dst.Envs, func(k string) bool {
			return reserved(k) || winScript(spec, src, k) || plainVar(src, k) ||
				vExistsKey(src.Settings, func(s string) bool { return plainSetting(src, s) && plugin(s) == k && (winScript(spec, src, k) ||
					vExistsKey(src.Settings, func(t string) bool { return t != s && plugin(t) == k }) || dst.Envs[k] == encode(src.Settings[s].Value)) })
		})
	}))
}

// N_C14_list: bounded, on the compiled code only.
func N_C14_list(xs []string) {
	in := []interface{}{}
	for _, x := range xs {
		in = append(in, x)
	}
	vEnsure("a list of strings is passed separated by commas", encode(in) == strings.Join(xs, ","))
}
