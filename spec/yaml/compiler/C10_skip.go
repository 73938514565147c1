package compiler

import "github.com/drone/drone-yaml/yaml"

func P_C10_skip(d SkipData, c *yaml.Container) {
	w := c.When
	runs := w.Branch.Match(d.Branch) && w.Cron.Match(d.Cron) && w.Event.Match(d.Event) &&
		w.Instance.Match(d.Instance) && w.Ref.Match(d.Ref) && w.Repo.Match(d.Repo) &&
		w.Target.Match(d.Target) && w.Action.Match(d.Action)
	vEnsure("a step is skipped iff one of its conditions does not match", SkipFunc(d)(c) == !runs)
	vEnsure("skipping does not change the step", vUnchanged())
}
