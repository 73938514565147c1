//go:build go1.18

package yaml

import "github.com/docker/go-units"

// A node of the document is given by the values it decodes to: for each kind of
// value a decoder asks for, a value or an error. The decoders below are run
// against every such node.
type vNode struct {
	Text   string
	Number int64
	List   []string
	Any    interface{}
	Fields vFields

	NoText, NoNumber, NoList, NoAny, NoFields error
}

// the fields of the long forms
type vFields struct {
	Value, Image, Context, Dockerfile, Protocol string
	Secret                                      string `yaml:"from_secret"`
	Port, Host                                  int
	Args, Labels                                map[string]string
	Cache                                       []string `yaml:"cache_from"`
	Include, Exclude                            []string
}

func (n *vNode) decode(v interface{}) error {
	err := n.NoFields
	switch vShape(v) {
	case "text":
		err = n.NoText
	case "number":
		err = n.NoNumber
	case "list":
		err = n.NoList
	case "any":
		err = n.NoAny
	}
	if err == nil {
		vFill(v, n)
	}
	return err
}

// a node is written in one notation
func (n *vNode) one() bool {
	t, u, l, f := n.NoText == nil, n.NoNumber == nil, n.NoList == nil, n.NoFields == nil
	return !(t && (u || l || f)) && !(u && (l || f)) && !(l && f)
}

func sameList(a, b []string) bool {
	return len(a) == len(b) && vForall(len(a), func(i int) bool { return a[i] == b[i] })
}

// a single value includes that value alone; a list includes its values; the
// long form keeps both lists
func P_C23_condition(c *Condition, n *vNode) {
	vRequire(c != nil && n != nil && n.one())
	vRequire(n.NoText == nil || n.NoList == nil || n.NoFields == nil)
	vNoPanic()
	err := c.UnmarshalYAML(n.decode)
	vEnsure("the condition is read", err == nil)
	if n.NoText == nil {
		vEnsure("one value is included", len(c.Include) == 1 && c.Include[0] == n.Text)
	} else if n.NoList == nil {
		vEnsure("a list is included", sameList(c.Include, n.List))
		vEnsure("a list excludes nothing", len(c.Exclude) == 0)
	} else {
		vEnsure("the include list is kept", sameList(c.Include, n.Fields.Include))
		vEnsure("the exclude list is kept", sameList(c.Exclude, n.Fields.Exclude))
	}
}

func P_C23_variable(v *Variable, n *vNode) {
	vRequire(v != nil && n != nil && n.one())
	vNoPanic()
	err := v.UnmarshalYAML(n.decode)
	if n.NoText == nil {
		vEnsure("a plain value is read", err == nil)
		vEnsure("a plain value is kept", v.Value == n.Text && v.Secret == "")
		return
	}
	vEnsure("a bad variable is an error", (err == nil) == (n.NoFields == nil))
	if err == nil {
		vEnsure("both fields are kept", v.Value == n.Fields.Value && v.Secret == n.Fields.Secret)
	}
}

func P_C23_variable_write(v *Variable) {
	vRequire(v != nil)
	vNoPanic()
	out, err := v.MarshalYAML()
	vEnsure("a variable can be written", err == nil)
	if v.Secret != "" {
		m, ok := out.(map[string]interface{})
		vEnsure("a reference is written as a reference", ok && vForallKey(m, func(k string) bool { return k == "from_secret" }))
		s, is := m["from_secret"].(string)
		vEnsure("the reference names the secret", is && s == v.Secret)
	} else if v.Value != "" {
		s, is := out.(string)
		vEnsure("a value is written as itself", is && s == v.Value)
	} else {
		vEnsure("nothing is written for nothing", out == nil)
	}
	vEnsure("writing does not change the variable", vUnchanged())
}

func P_C23_parameter(p *Parameter, n *vNode) {
	vRequire(p != nil && n != nil && n.one())
	vRequire(p.Secret == "" && p.Value == nil)
	vNoPanic()
	err := p.UnmarshalYAML(n.decode)
	if n.NoFields == nil && n.Fields.Secret != "" {
		vEnsure("a reference is read", err == nil)
		vEnsure("a reference is kept", p.Secret == n.Fields.Secret && p.Value == nil)
		return
	}
	vEnsure("a bad setting is an error", (err == nil) == (n.NoAny == nil))
	if err == nil {
		vEnsure("a value is kept", p.Secret == "" && vSame(p.Value, n.Any))
	}
}

func P_C23_parameter_write(p *Parameter) {
	vRequire(p != nil)
	vNoPanic()
	out, err := p.MarshalYAML()
	vEnsure("a setting can be written", err == nil)
	if p.Secret != "" {
		m, ok := out.(map[string]interface{})
		vEnsure("a reference is written as a reference", ok && vForallKey(m, func(k string) bool { return k == "from_secret" }))
		s, is := m["from_secret"].(string)
		vEnsure("the reference names the secret", is && s == p.Secret)
	} else if p.Value == "" {
		vEnsure("nothing is written for an empty text", out == nil)
	} else {
		vEnsure("a value is written as itself", vSame(out, p.Value))
	}
	vEnsure("writing does not change the setting", vUnchanged())
}

func P_C23_port(p *Port, n *vNode) {
	vRequire(p != nil && n != nil && n.one())
	vNoPanic()
	err := p.UnmarshalYAML(n.decode)
	if n.NoNumber == nil {
		vEnsure("a number is read", err == nil)
		vEnsure("a number is the port", p.Port == int(n.Number) && p.Host == 0 && p.Protocol == "")
		return
	}
	vEnsure("a bad port is an error", (err == nil) == (n.NoFields == nil))
	if err == nil {
		vEnsure("the fields are kept", p.Port == n.Fields.Port && p.Host == n.Fields.Host && p.Protocol == n.Fields.Protocol)
	}
}

func P_C23_push(p *Push, n *vNode) {
	vRequire(p != nil && n != nil && n.one())
	vNoPanic()
	err := p.UnmarshalYAML(n.decode)
	if n.NoText == nil {
		vEnsure("a name is the image", err == nil && p.Image == n.Text)
		return
	}
	vEnsure("a bad push is an error", (err == nil) == (n.NoFields == nil))
	if err == nil {
		vEnsure("the image is kept", p.Image == n.Fields.Image)
	}
}

func P_C23_build(b *Build, n *vNode) {
	vRequire(b != nil && n != nil && n.one())
	vNoPanic()
	err := b.UnmarshalYAML(n.decode)
	if n.NoText == nil {
		vEnsure("a name is the image", err == nil && b.Image == n.Text)
		vEnsure("a name sets nothing else", b.Context == "" && b.Dockerfile == "" && len(b.Args) == 0 && len(b.Labels) == 0 && len(b.CacheFrom) == 0)
		return
	}
	vEnsure("a bad build is an error", (err == nil) == (n.NoFields == nil))
	if err == nil {
		vEnsure("the texts are kept", b.Image == n.Fields.Image && b.Context == n.Fields.Context && b.Dockerfile == n.Fields.Dockerfile)
		vEnsure("the caches are kept", sameList(b.CacheFrom, n.Fields.Cache))
		vEnsure("the arguments and labels are kept", vSame(b.Args, n.Fields.Args) && vSame(b.Labels, n.Fields.Labels))
	}
}

func P_C23_size(b *BytesSize, n *vNode) {
	vRequire(b != nil && n != nil && n.one())
	was := *b
	vNoPanic()
	err := b.UnmarshalYAML(n.decode)
	if n.NoNumber == nil {
		vEnsure("a number is a number of bytes", err == nil && int64(*b) == n.Number)
		return
	}
	want, bad := units.RAMInBytes(n.Text)
	vEnsure("a size is read or is an error", (err == nil) == (n.NoText == nil && bad == nil))
	if err == nil {
		vEnsure("a size with a unit", int64(*b) == want)
	} else {
		vEnsure("an error leaves the size", *b == was)
	}
}
