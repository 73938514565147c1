package linter

import "github.com/drone/drone-yaml/yaml"

func init() {
	vImpl((*yaml.Resource)(nil), &yaml.Pipeline{}, &yaml.Pipeline{}, &yaml.Pipeline{}, &yaml.Secret{}, &yaml.Cron{}, &yaml.Registry{}, &yaml.Signature{})
	vSample(yaml.Platform{}, yaml.Platform{OS: "linux", Arch: "arm64"}, yaml.Platform{OS: "windows"}, yaml.Platform{OS: "linux"})
}
