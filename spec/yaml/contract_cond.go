//go:build go1.18

package yaml

func Contract_Condition_Match(c *Condition, v string) {
	r := c.Match(v)
	r2 := c.Match(v)
	vEnsure("the result depends on the condition and the string only", vFunctional(r, r2))
	vEnsure("nothing else changes", vUnchanged())
	vEnsure("an empty condition matches", len(c.Include) != 0 || len(c.Exclude) != 0 || r)
}
