package yaml

// wholeContainer: no list item of the container is empty.
func WholeContainer(c *Container) bool {
	return c != nil && vForall(len(c.Ports), func(j int) bool { return c.Ports[j] != nil }) &&
		vForall(len(c.Volumes), func(j int) bool { return c.Volumes[j] != nil })
}

// Whole: no list item of the pipeline is empty.
func Whole(p *Pipeline) bool {
	return vForall(len(p.Volumes), func(i int) bool { return p.Volumes[i] != nil }) &&
		vForall(len(p.Steps), func(i int) bool { return WholeContainer(p.Steps[i]) }) &&
		vForall(len(p.Services), func(i int) bool { return WholeContainer(p.Services[i]) })
}
