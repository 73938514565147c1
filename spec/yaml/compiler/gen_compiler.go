//go:build go1.18

package compiler

import "github.com/drone/drone-yaml/yaml"

func init() {
	vSample(yaml.Condition{}, yaml.Condition{}, yaml.Condition{Include: []string{"success", "failure"}},
		yaml.Condition{Include: []string{"failure"}}, yaml.Condition{Include: []string{"success"}},
		yaml.Condition{Exclude: []string{"success"}}, yaml.Condition{Exclude: []string{"failure"}})
}
