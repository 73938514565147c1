package yaml

import "github.com/bmatcuk/doublestar"

func anyMatch(ps []string, v string) bool {
	return vExists(len(ps), func(i int) bool {
		ok, _ := doublestar.Match(ps[i], v)
		return ok
	})
}

func P_C10_match(c *Condition, v string) {
	want := !anyMatch(c.Exclude, v) && (len(c.Include) == 0 || anyMatch(c.Include, v))
	vNoPanic()
	got := c.Match(v)
	vEnsure("match iff not excluded and (no includes or included)", got == want)
	vEnsure("matching does not change the condition", vUnchanged())
}

func P_C10_includes(c *Condition, v string) {
	vEnsure("includes", c.Includes(v) == anyMatch(c.Include, v))
	vEnsure("excludes", c.Excludes(v) == anyMatch(c.Exclude, v))
}
