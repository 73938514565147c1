//go:build go1.18

package bitbucket

import (
	"path"
	"strings"
)

func vMatch(pattern, s string) bool {
	ok, _ := path.Match(pattern, s)
	return ok
}

// the pipeline of the tag, else of the branch, else the default one
func P_C25_stage(c *Config, ref string) {
	vRequire(c != nil)
	vNoPanic()
	got := c.Pipeline(ref)
	tags, branches := c.Pipelines.Tags, c.Pipelines.Branches
	tag, branch := strings.TrimPrefix(ref, "refs/tags/"), strings.TrimPrefix(ref, "refs/heads/")
	byTag := vExistsKey(tags, func(k string) bool { return vMatch(k, tag) })
	byBranch := vExistsKey(branches, func(k string) bool { return vMatch(k, branch) })
	if byTag {
		vEnsure("the pipeline of a tag", vExistsKey(tags, func(k string) bool { return vMatch(k, tag) && vSame(got, tags[k]) }))
	} else if byBranch {
		vEnsure("the pipeline of a branch", vExistsKey(branches, func(k string) bool { return vMatch(k, branch) && vSame(got, branches[k]) }))
	} else {
		vEnsure("the default pipeline", vSame(got, c.Pipelines.Default))
	}
	vEnsure("the configuration is left alone", vUnchanged())
}

func P_C25_step(from *Step) {
	vRequire(from != nil)
	vNoPanic()
	to := toContainer(from)
	vEnsure("name and image", to.Name == from.Name && to.Image == from.Image)
	vEnsure("every command in order", len(to.Commands) == len(from.Script) && vForall(len(from.Script), func(i int) bool { return to.Commands[i] == from.Script[i] }))
	vEnsure("the configuration is left alone", vUnchanged())
}
