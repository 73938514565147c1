//go:build go1.18

package yaml

import (
	"encoding/json"

	"github.com/buildkite/yaml"
)

// kindOf: the kind of resource a document with this kind attribute becomes.
func kindOf(r Resource) string {
	switch r.(type) {
	case *Cron:
		return "cron"
	case *Secret:
		return "secret"
	case *Signature:
		return "signature"
	case *Registry:
		return "registry"
	case *Pipeline:
		return "pipeline"
	}
	return ""
}

// dispatch: the resource that a kind attribute asks for; anything that is no
// other resource is a pipeline.
func dispatch(kind string) string {
	switch kind {
	case "cron", "secret", "signature", "registry":
		return kind
	}
	return "pipeline"
}

func P_C07_dispatch(r *RawResource) {
	obj, _ := parseRaw(r)
	vEnsure("a document becomes the resource its kind names", kindOf(obj) == dispatch(r.Kind))
}

func P_C07_parse(text string) {
	vAbstract()
	want, readable := DocsOf(text)
	m, err := ParseString(text)
	if err != nil {
		vEnsure("no manifest with an error", m == nil)
		return
	}
	vEnsure("a manifest without an error", m != nil)
	vEnsure("only of a file that was read in full", readable)
	vEnsure("one resource per document", len(m.Resources) == len(want))
	vEnsure("each of the kind its document names, in order", vForall(len(want), func(i int) bool { return kindOf(m.Resources[i]) == dispatch(Head(want[i]).Kind) }))
	vEnsure("every cron job has a kind", vForall(len(m.Resources), func(i int) bool { r, ok := m.Resources[i].(*Cron); return !ok || r.Kind != "" }))
	vEnsure("every secret has a kind", vForall(len(m.Resources), func(i int) bool { r, ok := m.Resources[i].(*Secret); return !ok || r.Kind != "" }))
	vEnsure("every signature has a kind", vForall(len(m.Resources), func(i int) bool { r, ok := m.Resources[i].(*Signature); return !ok || r.Kind != "" }))
	vEnsure("every registry has a kind", vForall(len(m.Resources), func(i int) bool { r, ok := m.Resources[i].(*Registry); return !ok || r.Kind != "" }))
	vEnsure("every pipeline has a kind", vForall(len(m.Resources), func(i int) bool { r, ok := m.Resources[i].(*Pipeline); return !ok || r.Kind != "" }))
}

func N_C07_manifest(text string) {
	raw, e0 := ParseRawString(text)
	m, err := ParseString(text)
	if e0 != nil {
		vEnsure("a file that cannot be split is not parsed", err != nil)
		return
	}
	for _, r := range raw {
		if r.Kind == "" {
			vEnsure("a document without a kind is an error", err != nil)
		}
	}
	if err != nil {
		return
	}
	vEnsure("one resource per document", len(m.Resources) == len(raw))
	for i, r := range raw {
		vEnsure("in order, each of the kind its document names", kindOf(m.Resources[i]) == dispatch(r.Kind) && m.Resources[i].GetKind() == r.Kind && m.Resources[i].GetVersion() == r.Version)
	}
}

func N_C07_json(text string) {
	m, err := ParseString(text)
	if err != nil {
		return
	}
	b, err := m.MarshalJSON()
	if err != nil {
		return
	}
	got := new(Manifest)
	vEnsure("a manifest can be read back from its json", json.Unmarshal(b, got) == nil)
	vEnsure("with one resource per resource", len(got.Resources) == len(m.Resources))
	for i, r := range m.Resources {
		vEnsure("in order and of the same kind", kindOf(got.Resources[i]) == kindOf(r) && got.Resources[i].GetKind() == r.GetKind() && got.Resources[i].GetVersion() == r.GetVersion())
	}
}

func P_C07_decode(r *RawResource) {
	obj, err := parseRaw(r)
	switch v := obj.(type) {
	case *Cron:
		want := new(Cron)
		e := yaml.Unmarshal(r.Data, want)
		vEnsure("a cron job is what its document says", vSame(*v, *want) && (e == nil) == (err == nil))
	case *Secret:
		want := new(Secret)
		e := yaml.Unmarshal(r.Data, want)
		vEnsure("a secret is what its document says", vSame(*v, *want) && (e == nil) == (err == nil))
	case *Signature:
		want := new(Signature)
		e := yaml.Unmarshal(r.Data, want)
		vEnsure("a signature is what its document says", vSame(*v, *want) && (e == nil) == (err == nil))
	case *Registry:
		want := new(Registry)
		e := yaml.Unmarshal(r.Data, want)
		vEnsure("a registry is what its document says", vSame(*v, *want) && (e == nil) == (err == nil))
	case *Pipeline:
		want := new(Pipeline)
		e := yaml.Unmarshal(r.Data, want)
		vEnsure("a pipeline is what its document says", vSame(*v, *want) && (e == nil) == (err == nil))
	}
}
