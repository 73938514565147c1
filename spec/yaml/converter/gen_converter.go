//go:build go1.18 && !oss

package converter

import "strings"

func (g *vG) pick(xs ...string) string { return xs[g.n(len(xs))] }

func Gen_N_C25_dispatch(g *vG) (string, string, string) {
	name := g.pick(".drone.yml", "", "circle.yml", ".circleci/config.yml", ".travis.yml", "bitbucket-pipelines.yml", ".gitlab-ci.yml", "a/.gitlab-ci.yml", ".GITLAB-CI.yml", ".drone.yaml")
	var b strings.Builder
	for i, n := 0, g.n(4); i < n; i++ {
		b.WriteString(g.pick("---\n", "kind: pipeline\n", "name: x\n", "# pipeline:\n", "\n", "version: 1\n"))
	}
	switch name {
	case "bitbucket-pipelines.yml":
		return g.pick("image: node\npipelines:\n  default:\n  - step:\n      script: [ a ]\n  branches:\n    master:\n    - step:\n        script: [ b ]\n", b.String()+"pipeline:\n"), name, g.pick("", "refs/heads/master", "refs/heads/x")
	case ".gitlab-ci.yml":
		return g.pick("image: ruby\njob:\n  script: [ a, b ]\n", "stages: [ s ]\nx:\n  stage: s\n  script: y\n"), name, ""
	}
	b.WriteString(g.pick("pipeline:", " pipeline:", "pipeline: x", "Pipeline:", "steps:", "pipelines:", "pipeline:  ") + g.pick("\n", "\r\n", " \n", "\t\n", ""))
	if g.n(3) != 0 {
		b.WriteString("  a:\n    image: golang\n    commands: [ go test ]\n")
	}
	return b.String(), name, ""
}
