# ---- planted bugs, written from the property texts and the code alone
seed('C01-service-host-port', 'C01', 'yaml/linter', [
    ('yaml/linter/linter.go', '''		err := checkPort(port, trusted)
		if err != nil {
			return err
		}
''', '''		// ports published on a protocol other than the default are internal
		if port.Protocol == "udp" {
			break
		}
		err := checkPort(port, trusted)
		if err != nil {
			return err
		}
''')], '''
package linter

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{Services: []*yaml.Container{{Name: "db", Image: "redis", Ports: []*yaml.Port{
		{Port: 53, Protocol: "udp"}, {Port: 80, Host: 8080},
	}}}}
	if Lint(p, false) == nil {
		t.Fatal("host port accepted in an untrusted repository")
	}
}
''', 'a list of ports with a udp entry before one that binds a host port', 'an untrusted pipeline that binds a host port passes lint')

seed('C02-case-insensitive-dup', 'C02', 'yaml/linter', [
    ('yaml/linter/linter.go', '''	for _, container := range pipeline.Services {
		// an empty list item is parsed as a nil container.
		if container == nil {
			return ErrMissingContainer
		}
		_, ok := names[container.Name]
		if ok {
			return ErrDuplicateStepName
		}
		names[container.Name] = struct{}{}
''', '''	for _, container := range pipeline.Services {
		// an empty list item is parsed as a nil container.
		if container == nil {
			return ErrMissingContainer
		}
		_, ok := names[container.Name]
		if ok && !container.Detach {
			return ErrDuplicateStepName
		}
		names[container.Name] = struct{}{}
''')], '''
package linter

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{
		Steps:    []*yaml.Container{{Name: "db", Image: "golang"}},
		Services: []*yaml.Container{{Name: "db", Image: "redis", Detach: true}},
	}
	if Lint(p, true) == nil {
		t.Fatal("duplicate name accepted")
	}
}
''', 'a service with detach set whose name equals the name of a step', 'names are no longer pairwise distinct')

seed('C03-forward-dep', 'C03', 'yaml/linter', [
    ('yaml/linter/linter.go', '''		_, ok := deps[dep]
		if !ok {
			return ErrMissingDependency
		}
		if container.Name == dep {
			return ErrCyclicalDependency
		}
	}
	return nil
}''', '''		_, ok := deps[dep]
		if !ok {
			return ErrMissingDependency
		}
		if container.Name == dep {
			return ErrCyclicalDependency
		}
		// the dependencies of a dependency are met by the time it completes
		for _, name := range container.DependsOn {
			deps[name] = struct{}{}
		}
	}
	return nil
}''')], '''
package linter

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{
		{Name: "a", Image: "golang"},
		{Name: "b", Image: "golang", DependsOn: []string{"a", "nope"}},
	}}
	if Lint(p, true) == nil {
		t.Fatal("dangling dependency accepted")
	}
}
''', 'a step with two dependencies, the first valid and the second dangling', 'a dangling dependency passes lint')

seed('C05-dep-before-name', 'C05', 'yaml/linter', [
    ('yaml/linter/config.go', '''			_, ok := names[v.Name]
			if ok {
				return ErrDuplicatePipelineName
			}
			names[v.Name] = struct{}{}
''', '''			_, ok := names[v.Name]
			if ok {
				return ErrDuplicatePipelineName
			}
			names[v.Name] = struct{}{}
			if len(v.DependsOn) > 1 && v.DependsOn[0] == v.DependsOn[len(v.DependsOn)-1] {
				v.DependsOn = v.DependsOn[1:]
			}
''')], '''
package linter

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	a := &yaml.Pipeline{Name: "a"}
	b := &yaml.Pipeline{Name: "b", DependsOn: []string{"a", "a"}}
	Manifest(&yaml.Manifest{Resources: []yaml.Resource{a, b}}, true)
	if len(b.DependsOn) != 2 {
		t.Fatal("the manifest was modified")
	}
}
''', 'a pipeline that lists the same dependency first and last', 'linting modifies the manifest')

seed('C11-build-privileged', 'C11', 'yaml/compiler', [
    ('yaml/compiler/compiler.go', '''		if c.privileged(container) {
			step.Docker.Privileged = true
		}
		// if the clone step is enabled, the step should''', '''		if c.privileged(container) || step.Docker.Image == "drone/docker" {
			step.Docker.Privileged = true
		}
		// if the clone step is enabled, the step should''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{{Name: "b", Build: &yaml.Build{Image: "x"}}}}
	if new(Compiler).Compile(p).Steps[1].Docker.Privileged {
		t.Fatal("privileged without being requested or approved")
	}
}
''', 'a step with a build section', 'build steps run privileged although nothing requested or approved it')

seed('C12-service-order', 'C12', 'yaml/compiler', [
    ('yaml/compiler/compiler.go', '''			step.DependsOn = append(step.DependsOn, cloneStepName)
		}
		spec.Steps = append(spec.Steps, step)
	}

	// rename''', '''			step.DependsOn = append(step.DependsOn, cloneStepName)
		}
		if n := len(spec.Steps); n > 1 && spec.Steps[n-1].Docker.Image == step.Docker.Image {
			// keep containers of the same image next to the first one
			spec.Steps = append(spec.Steps[:n-1:n-1], step, spec.Steps[n-1])
			continue
		}
		spec.Steps = append(spec.Steps, step)
	}

	// rename''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{Services: []*yaml.Container{{Name: "a", Image: "redis"}, {Name: "b", Image: "redis"}}}
	s := new(Compiler).Compile(p).Steps
	if s[1].Metadata.Name != "a" || s[2].Metadata.Name != "b" {
		t.Fatal("order changed")
	}
}
''', 'two services in a row with the same image', 'the order of the compiled steps differs from the pipeline')

seed('C13-clone-dep-services', 'C13', 'yaml/compiler', [
    ('yaml/compiler/compiler.go', '''	for _, step := range from.Steps {
		if len(step.DependsOn) != 0 {
			isSerial = false
			break
		}
	}
''', '''	for i, step := range from.Steps {
		if len(step.DependsOn) != 0 {
			// a dependency of the last step on the one before is the serial order
			if i > 1 && i == len(from.Steps)-1 && len(step.DependsOn) == 1 && step.DependsOn[0] == from.Steps[i-1].Name {
				continue
			}
			isSerial = false
			break
		}
	}
''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{{Name: "a"}, {Name: "b"}, {Name: "c", DependsOn: []string{"b"}}}}
	s := new(Compiler).Compile(p).Steps
	if len(s[1].DependsOn) != 1 || s[1].DependsOn[0] != "clone" {
		t.Fatal("step a does not wait for the clone step")
	}
}
''', 'three or more steps where only the last declares a dependency, on the step before it', 'the graph is non-empty but the root steps do not depend on the clone step')

seed('C16-skip-service', 'C16', 'yaml/compiler', [
    ('yaml/compiler/compiler.go', '''		if c.skip(service) {
			step.RunPolicy = engine.RunNever
		}''', '''		if c.skip(service) && step.RunPolicy != engine.RunAlways {
			step.RunPolicy = engine.RunNever
		}''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	sv := &yaml.Container{Name: "a", Image: "redis"}
	sv.When.Status.Include = []string{"success", "failure"}
	sv.When.Branch.Include = []string{"master"}
	c := &Compiler{SkipFunc: SkipFunc(SkipData{Branch: "dev"})}
	if c.Compile(&yaml.Pipeline{Services: []*yaml.Container{sv}}).Steps[1].RunPolicy != engine.RunNever {
		t.Fatal("a skipped service runs")
	}
}
''', 'a service restricted to a branch that also matches both statuses', 'a service that should be skipped runs')

seed('C04-overlap-platform', 'C04', 'yaml/linter', [
    ('yaml/linter/linter.go', '''	for _, container := range pipeline.Services {
		// an empty list item is parsed as a nil container.
		if container == nil {
			return ErrMissingContainer
		}
		_, ok := names[container.Name]
		if ok {
			return ErrDuplicateStepName
		}
		names[container.Name] = struct{}{}

		err := checkContainer(container, trusted)
		if err != nil {
			return err
		}
	}
	return nil
''', '''	for _, container := range pipeline.Services {
		// an empty list item is parsed as a nil container.
		if container == nil {
			return ErrMissingContainer
		}
		_, ok := names[container.Name]
		if ok {
			return ErrDuplicateStepName
		}
		names[container.Name] = struct{}{}

		// services are detached
		container.Detach = true
		err := checkContainer(container, trusted)
		if err != nil {
			return err
		}
	}
	return nil
''')], '''
package linter

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{Services: []*yaml.Container{{Name: "a", Image: "redis"}}}
	if Lint(p, false) != nil || p.Services[0].Detach {
		t.Fatal("linting changed the service")
	}
}
''', 'a pipeline with a service that is not marked detached', 'linting modifies the resource')

seed('C04-dep-service', 'C04', 'yaml/linter', [
    ('yaml/linter/linter.go', '''	for _, dep := range container.DependsOn {
		_, ok := deps[dep]
		if !ok {
			return ErrMissingDependency
		}
''', '''	seen := map[string]struct{}{}
	for _, dep := range container.DependsOn {
		_, ok := deps[dep]
		if _, dup := seen[dep]; dup || !ok {
			return ErrMissingDependency
		}
		seen[dep] = struct{}{}
''')], '''
package linter

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{{Name: "a", Image: "x"}, {Name: "b", Image: "x", DependsOn: []string{"a", "a"}}}}
	if err := Lint(p, false); err != nil {
		t.Fatal("a valid pipeline is rejected:", err)
	}
}
''', 'a step that lists the same dependency twice', 'a conforming pipeline is rejected')

seed('C06-blank-document', 'C06', 'yaml', [
    ('yaml/parse.go', '''		if resource == nil {
			resource = &RawResource{}
			resources = append(resources, resource)
		}
		if isSeparator(line) {
			continue
		}
''', '''		if isSeparator(line) {
			continue
		}
		if resource == nil {
			resource = &RawResource{}
			resources = append(resources, resource)
		}
''')], '''
package yaml

import "testing"

func TestDemo(t *testing.T) {
	r, err := ParseRawString("---\\n---\\nkind: cron\\n")
	if err != nil || len(r) != 2 {
		t.Fatal("an empty document is dropped", len(r), err)
	}
}
''', 'a document without any line between two separators', 'documents are lost (an empty document no longer reaches the missing-kind error)')

seed('C06-terminator-strict', 'C06', 'yaml', [
    ('yaml/parse.go', '''		if isTerminator(line) {
			break
		}
''', '''		if isTerminator(line) && len(resource.Data) > 0 {
			break
		}
''')], '''
package yaml

import "testing"

func TestDemo(t *testing.T) {
	r, err := ParseRawString("kind: cron\\n---\\n...\\nkind: secret\\n")
	if err != nil || len(r) != 2 || len(r[1].Data) != 0 {
		t.Fatal("text after the end of the file is read", len(r), err)
	}
}
''', 'a terminator directly after a separator', 'lines after the terminator become part of the file')

seed('C07-signature-kind', 'C07', 'yaml', [
    ('yaml/parse.go', '''		if resource.GetKind() == "" {
			return nil, errorMissingKind
		}
''', '''		if _, ok := resource.(*Pipeline); ok && resource.GetKind() == "" && len(raw.Data) != 0 {
			return nil, errorMissingKind
		}
''')], '''
package yaml

import "testing"

func TestDemo(t *testing.T) {
	if _, err := ParseString("kind: cron\\nname: a\\n---\\n---\\nkind: secret\\n"); err == nil {
		t.Fatal("a document without a kind is accepted")
	}
}
''', 'an empty document in a file of several', 'a document without a kind is accepted as a pipeline')

seed('C07-kind-json', 'C07', 'yaml', [
    ('yaml/parse.go', '''	switch r.Kind {
	case "cron":
		obj = new(Cron)
	case "secret":
		obj = new(Secret)
''', '''	switch r.Kind {
	case "cron":
		obj = new(Cron)
	case "secret", "external":
		obj = new(Secret)
''')], '''
package yaml

import "testing"

func TestDemo(t *testing.T) {
	m, err := ParseString("kind: external\\nname: a\\nsteps: []\\n")
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := m.Resources[0].(*Pipeline); !ok {
		t.Fatal("a document of another kind is not a pipeline")
	}
}
''', 'a kind no other resource has', 'a document becomes another resource than its kind names')

seed('C08-trim-document', 'C08', 'yaml/signer', [
    ('yaml/signer/signer.go', '''		if r.Kind != yaml.KindSignature {
			h.Write(r.Data)
		}
	}
	return h.Sum(nil), nil
''', '''		if r.Kind != yaml.KindSignature {
			h.Write(bytes.Replace(r.Data, []byte(" \\n"), []byte("\\n"), -1))
		}
	}
	return h.Sum(nil), nil
''')], '''
package signer

import "testing"

func TestDemo(t *testing.T) {
	k := KeyString("01234567890123456789012345678901")
	a, _ := Sign([]byte("kind: pipeline\\nname: a \\n"), k)
	b, _ := Sign([]byte("kind: pipeline\\nname: a\\n"), k)
	if a == b {
		t.Fatal("different files have the same signature")
	}
}
''', 'two files that differ in white space at the end of a line', 'a changed file still verifies')

seed('C08-empty-hmac', 'C08', 'yaml/signer', [
    ('yaml/signer/signer.go', '''	return hmac.Equal(mac1, mac2), nil
}
''', '''	if n := len(mac1); n > 0 && n < len(mac2) {
		// accept truncated signatures (rfc 2104, section 5)
		mac2 = mac2[:n]
	}
	return hmac.Equal(mac1, mac2), nil
}
''')], '''
package signer

import "testing"

func TestDemo(t *testing.T) {
	k := KeyString("01234567890123456789012345678901")
	doc := "kind: pipeline\\nname: a\\n"
	a, _ := Sign([]byte(doc), k)
	ok, _ := Verify([]byte(doc+"---\\nkind: signature\\nhmac: "+a[:2]+"\\n"), k)
	if ok {
		t.Fatal("a truncated signature is verified")
	}
}
''', 'a signature document with a prefix of the hmac', 'a file verifies whose hmac is not that of its documents')

seed('C09-keep-position', 'C09', 'yaml/signer', [
    ('yaml/signer/signer.go', '''	var buf bytes.Buffer
	for _, r := range res {
		if r.Kind != yaml.KindSignature {
			buf.WriteString("---")
			buf.WriteByte('\\n')
			buf.Write(r.Data)
		}
	}

	buf.WriteString("---")
	buf.WriteByte('\\n')
	buf.WriteString("kind: signature")
	buf.WriteByte('\\n')
	buf.WriteString("hmac: " + hex.EncodeToString(hmac))
''', '''	var buf bytes.Buffer
	for _, r := range res {
		if r.Kind == yaml.KindSignature || len(r.Data) == 0 {
			continue
		}
		buf.WriteString("---")
		buf.WriteByte('\\n')
		buf.Write(r.Data)
	}

	buf.WriteString("---")
	buf.WriteByte('\\n')
	buf.WriteString("kind: signature")
	buf.WriteByte('\\n')
	buf.WriteString("hmac: " + hex.EncodeToString(hmac))
''')], '''
package signer

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	k := KeyString("01234567890123456789012345678901")
	out, err := SignUpdate([]byte("kind: pipeline\\nname: a\\n---\\n---\\nkind: cron\\n"), k)
	if err != nil {
		t.Fatal(err)
	}
	r, _ := yaml.ParseRawBytes(out)
	if len(r) != 4 {
		t.Fatal("a document is lost", len(r))
	}
}
''', 'a document without text', 'documents are not all kept when a file is signed')

seed('C09-write-first', 'C09', 'yaml/signer', [
    ('yaml/signer/signer.go', '''// helper function inserts or updates the hmac signature
// into the yaml document, and returns an updated copy.
func upsert(res []*yaml.RawResource, hmac string) []byte {
	var buf bytes.Buffer
	for _, r := range res {
		if r.Kind != yaml.KindSignature {
''', '''// helper function inserts or updates the hmac signature
// into the yaml document, and returns an updated copy.
func upsert(res []*yaml.RawResource, hmac string) []byte {
	var buf bytes.Buffer
	found := false
	for _, r := range res {
		found = found || r.Kind == yaml.KindSignature
		if !found || r.Kind != yaml.KindSignature && r.Kind != "" {
''')], '''
package signer

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	out, err := WriteTo([]byte("kind: signature\\nhmac: a\\n---\\n# comment\\n---\\nkind: cron\\n"), "b")
	if err != nil {
		t.Fatal(err)
	}
	r, _ := yaml.ParseRawBytes(out)
	if len(r) != 3 {
		t.Fatal("a document is lost", len(r))
	}
}
''', 'a document without a kind after a signature', 'documents after the signature are lost')

seed('C14-setting-case', 'C14', 'yaml/compiler', [
    ('yaml/compiler/step.go', '''			dst.Envs[key] = encode(value.Value)
''', '''			if _, ok := dst.Envs[key]; !ok {
				dst.Envs[key] = encode(value.Value)
			}
''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	s := createStep(&engine.Spec{}, &yaml.Container{Name: "a",
		Environment: map[string]*yaml.Variable{"PLUGIN_TAG": {Value: "latest"}},
		Settings:    map[string]*yaml.Parameter{"tag": {Value: "1.0"}},
	})
	if s.Envs["PLUGIN_TAG"] != "1.0" {
		t.Fatal("the setting does not reach the step")
	}
}
''', 'a setting and an environment variable of the same final name', 'a literal setting is not passed to the step')

seed('C14-secret-skip', 'C14', 'yaml/compiler', [
    ('yaml/compiler/step.go', '''			sec := &engine.SecretVar{
				Name: value.Secret,
				Env:  key,
			}
			dst.Secrets = append(dst.Secrets, sec)
		} else {
			dst.Envs[key] = value.Value
		}
''', '''			sec := &engine.SecretVar{
				Name: value.Secret,
				Env:  key,
			}
			dst.Secrets = append(dst.Secrets, sec)
		}
		if value.Secret == "" || value.Value != "" {
			// use the default value until the secret is known
			dst.Envs[key] = value.Value
		}
''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	s := createStep(&engine.Spec{}, &yaml.Container{Name: "a",
		Environment: map[string]*yaml.Variable{"TOKEN": {Value: "x", Secret: "token"}},
	})
	if _, ok := s.Envs["TOKEN"]; ok {
		t.Fatal("a secret variable is passed as a literal")
	}
}
''', 'a variable with a secret and a literal value', 'a variable taken from a secret is passed as a literal')

seed('C15-socket-mount', 'C15', 'yaml/compiler', [
    ('yaml/compiler/step.go', '''		if vol.Name == "_docker_socket" {
			continue
		}
''', '''		if vol.Name == "_docker_socket" && vol.MountPath == "/var/run/docker.sock" {
			continue
		}
''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	s := createStep(&engine.Spec{}, &yaml.Container{Name: "a", Volumes: []*yaml.VolumeMount{{Name: "_docker_socket", MountPath: "/tmp/d"}}})
	if len(s.Volumes) != 0 {
		t.Fatal("the docker socket is mounted")
	}
}
''', 'a mount of the docker socket at another path', 'a step mounts the docker socket')

seed('C17-trim-command', 'C17', 'yaml/compiler', [
    ('yaml/compiler/script_posix.go', '''		escaped := fmt.Sprintf("%q", command)
''', '''		command = strings.TrimSuffix(command, "\\\\")
		escaped := fmt.Sprintf("%q", command)
''')], '''
package compiler

import (
	"strings"
	"testing"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	spec := &engine.Spec{}
	createStep(spec, &yaml.Container{Name: "a", Commands: []string{"echo a \\\\", "echo b"}})
	if !strings.Contains(string(spec.Files[0].Data), "\\necho a \\\\\\n") {
		t.Fatal("the command is altered")
	}
}
''', 'a command that ends in a backslash', 'a command is not run verbatim')

seed('C17-percent', 'C17', 'yaml/compiler', [
    ('yaml/compiler/script_posix.go', '''		buf.WriteString(fmt.Sprintf(
			traceScript,
			escaped,
			command,
		))
''', '''		trace := strings.Replace(traceScript, "%s\\n", escaped+"\\n", 1)
		buf.WriteString(fmt.Sprintf(trace, command))
''')], '''
package compiler

import (
	"strings"
	"testing"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	spec := &engine.Spec{}
	createStep(spec, &yaml.Container{Name: "a", Commands: []string{"date +%s"}})
	if !strings.Contains(string(spec.Files[0].Data), "\\ndate +%s\\n") {
		t.Fatal("the command is altered")
	}
}
''', 'a command with a percent sign', 'the command is expanded as a format and not run verbatim')

seed('C18-pull-case', 'C18', 'yaml/compiler', [
    ('yaml/compiler/convert.go', '''	return &engine.ResourceObject{
		CPU:    toCPUMillis(from.CPU),
		Memory: int64(from.Memory),
	}
''', '''	memory := int64(from.Memory)
	if memory >= 1<<32 {
		memory = memory &^ (1<<20 - 1)
	}
	return &engine.ResourceObject{
		CPU:    toCPUMillis(from.CPU),
		Memory: memory,
	}
''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	if r := toResourceObject(&yaml.ResourceObject{Memory: 1<<32 + 5}); r.Memory != 1<<32+5 {
		t.Fatal("the memory limit is changed", r.Memory)
	}
}
''', 'a memory limit of four gigabytes or more that is no whole number of megabytes', 'the resource limit of the step is not that of its definition')

seed('C19-resume-clone', 'C19', 'yaml/compiler/transform', [
    ('yaml/compiler/transform/filter.go', '''			if step.Metadata.Name == name {
				return
			}
''', '''			if step.Metadata.Name == name && step.RunPolicy != engine.RunNever {
				return
			}
''')], '''
package transform

import (
	"testing"

	"github.com/drone/drone-runtime/engine"
)

func TestDemo(t *testing.T) {
	spec := &engine.Spec{Steps: []*engine.Step{{Metadata: engine.Metadata{Name: "a"}, RunPolicy: engine.RunNever}, {Metadata: engine.Metadata{Name: "b"}}}}
	ResumeAt("a")(spec)
	if spec.Steps[1].RunPolicy == engine.RunNever {
		t.Fatal("a step after the named one is stopped")
	}
}
''', 'the step to resume at is itself not going to run', 'steps after the named step are stopped')

seed('C20-secret-first', 'C20', 'yaml/compiler/transform', [
    ('yaml/compiler/transform/secret.go', '''			for _, v := range step.Secrets {
				set[v.Name] = struct{}{}
			}
''', '''			for _, v := range step.Secrets {
				if _, ok := step.Envs[v.Env]; ok {
					continue
				}
				set[v.Name] = struct{}{}
			}
''')], '''
package transform

import (
	"testing"

	"github.com/drone/drone-runtime/engine"
)

func TestDemo(t *testing.T) {
	n := 0
	spec := &engine.Spec{Steps: []*engine.Step{{Envs: map[string]string{"A": "x"}, Secrets: []*engine.SecretVar{{Name: "s", Env: "A"}}}}}
	WithSecretFunc(func(string) *engine.Secret { n++; return nil })(spec)
	if n != 1 {
		t.Fatal("the secret of a step is not asked for")
	}
}
''', 'a step with a literal variable of the same name as one taken from a secret', 'a secret of a step that runs is not requested')

seed('C10-literal-pattern', 'C10', 'yaml', [
    ('yaml/cond.go', '''	for _, pattern := range c.Exclude {
		if ok, _ := filepath.Match(pattern, v); ok {
''', '''	for _, pattern := range c.Exclude {
		if ok, err := filepath.Match(pattern, v); ok || err != nil && pattern == v {
''')], '''
package yaml

import "testing"

func TestDemo(t *testing.T) {
	c := Condition{Exclude: []string{"fix-[1"}}
	if !c.Match("fix-[1") {
		t.Fatal("a malformed pattern excludes a branch")
	}
}
''', 'a malformed exclude pattern equal to the value', 'a step that no pattern excludes does not run')

seed('C15-skipped-build', 'C15', 'yaml/compiler', [
    ('yaml/compiler/compiler.go', '''			step = createBuildStep(spec, container)
			rename[container.Build.Image] = step.Metadata.UID
''', '''			step = createBuildStep(spec, container)
			// a step that is skipped makes no image
			if !c.skip(container) {
				rename[container.Build.Image] = step.Metadata.UID
			}
''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	c := &Compiler{SkipFunc: func(c *yaml.Container) bool { return c.Name == "b" }}
	s := c.Compile(&yaml.Pipeline{Steps: []*yaml.Container{{Name: "a", Image: "x"}, {Name: "b", Build: &yaml.Build{Image: "y"}}}})
	for _, v := range s.Docker.Volumes {
		if v.Metadata.Name == "_docker_socket" {
			return
		}
	}
	t.Fatal("the docker socket is not declared")
}
''', 'every build step of the pipeline is skipped', 'a build step mounts a volume that is not declared')

seed('C20-limit-equal', 'C20', 'yaml/compiler/transform', [
    ('yaml/compiler/transform/limits.go', '''		for _, step := range spec.Steps {
''', '''		for _, step := range spec.Steps {
			if step.Resources != nil && step.Resources.Limits != nil && step.Resources.Limits.CPU == cpulimit && cpulimit != 0 {
				continue
			}
''')], '''
package transform

import (
	"testing"

	"github.com/drone/drone-runtime/engine"
)

func TestDemo(t *testing.T) {
	spec := &engine.Spec{Steps: []*engine.Step{{Resources: &engine.Resources{Limits: &engine.ResourceObject{CPU: 5, Memory: 1}}}}}
	WithLimits(9, 5)(spec)
	if spec.Steps[0].Resources.Limits.Memory != 9 {
		t.Fatal("the memory limit is not set")
	}
}
''', 'a step whose cpu limit is already the one given', 'the limits of a step are not set')

# ---- second series

seed('C21-rename-any-tag', 'C21', 'yaml/compiler', [
    ('yaml/compiler/compiler.go', '''			if image.MatchTag(step.Docker.Image, k) {
''', '''			if image.Match(step.Docker.Image, k) {
''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{
		{Name: "build", Build: &yaml.Build{Image: "octocat/app:2"}},
		{Name: "old", Image: "octocat/app:1"},
	}}
	if got := new(Compiler).Compile(p).Steps[2].Docker.Image; got != "docker.io/octocat/app:1" {
		t.Fatal("a step pinned to another tag runs", got)
	}
}
''', 'a build step and another step that runs a different tag of the same image', 'a step pinned to one tag runs the freshly built image of another tag')

seed('C21-alias-name', 'C21', 'yaml/compiler', [
    ('yaml/compiler/step.go', '''		alias := image.Trim(v) + ":" + dst.Metadata.UID
''', '''		alias := image.Trim(v) + ":" + dst.Metadata.Name
''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{{Name: "build", Build: &yaml.Build{Image: "octocat/app"}}}}
	a := new(Compiler).Compile(p).Steps[1].Envs["DOCKER_BUILD_IMAGE_ALIAS"]
	b := new(Compiler).Compile(p).Steps[1].Envs["DOCKER_BUILD_IMAGE_ALIAS"]
	if a == b {
		t.Fatal("two runs share the alias", a)
	}
}
''', 'two runs of one pipeline with a build step', 'concurrent runs build images under the same alias and steps run the wrong one')

seed('C22-bare-volume', 'C22', 'yaml/linter', [
    ('yaml/linter/linter.go', '''		if volume.EmptyDir != nil {
			err := checkEmptyDirVolume(volume.EmptyDir, trusted)
			if err != nil {
				return err
			}
		}
		if volume.HostPath != nil {
			err := checkHostPathVolume(volume.HostPath, trusted)
			if err != nil {
				return err
			}
		}
''', '''		var err error
		if volume.HostPath != nil {
			err = checkHostPathVolume(volume.HostPath, trusted)
		} else {
			err = checkEmptyDirVolume(volume.EmptyDir, trusted)
		}
		if err != nil {
			return err
		}
''')], '''
package linter

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	Lint(&yaml.Pipeline{Volumes: []*yaml.Volume{{Name: "cache"}}}, false)
}
''', 'a volume with a name and no kind, linted for an untrusted repository', 'linting such a configuration crashes')

seed('C22-nil-setting', 'C22', 'yaml/compiler', [
    ('yaml/compiler/step.go', '''	for key, value := range src.Settings {
		// fix https://github.com/drone/drone-yaml/issues/13
		if value == nil {
			continue
		}
		// all settings''', '''	for key, value := range src.Settings {
		// fix https://github.com/drone/drone-yaml/issues/13
		if value == nil && len(src.Commands) == 0 {
			continue
		}
		// all settings''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	new(Compiler).Compile(&yaml.Pipeline{Steps: []*yaml.Container{{
		Name: "a", Image: "b", Commands: []string{"c"}, Settings: map[string]*yaml.Parameter{"x": nil},
	}}})
}
''', 'a step with commands and an empty setting', 'compiling a pipeline that lint accepts crashes')

seed('C01-both-volume', 'C01', 'yaml/linter', [
    ('yaml/linter/linter.go', '''				return err
			}
		}
		if volume.HostPath != nil {
''', '''				return err
			}
		} else if volume.HostPath != nil {
''')], '''
package linter

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{Volumes: []*yaml.Volume{{Name: "x", EmptyDir: &yaml.VolumeEmptyDir{}, HostPath: &yaml.VolumeHostPath{Path: "/"}}}}
	if Lint(p, false) == nil {
		t.Fatal("host volume accepted in an untrusted repository")
	}
}
''', 'a volume that is both a temporary directory and a host path', 'an untrusted pipeline with a host volume passes lint')

seed('C02-image-commands', 'C02', 'yaml/linter', [
    ('yaml/linter/linter.go', '''	if container.Build == nil && container.Image == "" {
''', '''	if container.Build == nil && container.Image == "" && !container.Detach {
''')], '''
package linter

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{{Name: "a", Detach: true}}}
	if Lint(p, true) == nil {
		t.Fatal("a step without image is accepted")
	}
}
''', 'a detached step without image', 'a step that has no image passes lint')

seed('C03-scope-reset', 'C03', 'yaml/linter', [
    ('yaml/linter/linter.go', '''		if !ok {
			return ErrMissingDependency
		}
		if container.Name == dep {
			return ErrCyclicalDependency
		}
''', '''		if !ok {
			return ErrMissingDependency
		}
		if len(container.DependsOn) == 1 && container.Name == dep {
			return ErrCyclicalDependency
		}
''')], '''
package linter

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{{Name: "a", Image: "x"}, {Name: "b", Image: "x", DependsOn: []string{"a", "b"}}}}
	if Lint(p, true) == nil {
		t.Fatal("a step that waits for itself is accepted")
	}
}
''', 'a step with two dependencies, one of them itself', 'a cyclic dependency passes lint')

seed('C10-bad-pattern', 'C10', 'yaml', [
    ('yaml/cond.go', '''	for _, pattern := range c.Exclude {
		if ok, _ := filepath.Match(pattern, v); ok {
			return true
		}
	}
	return false
''', '''	for _, pattern := range c.Exclude {
		ok, err := filepath.Match(pattern, v)
		if err != nil {
			break
		}
		if ok {
			return true
		}
	}
	return false
''')], '''
package yaml

import "testing"

func TestDemo(t *testing.T) {
	c := Condition{Exclude: []string{"[a", "master"}}
	if c.Match("master") {
		t.Fatal("an excluded value matches")
	}
}
''', 'a malformed exclude pattern before the one that matches', 'a condition matches a value it excludes')

seed('C11-skip-privileged', 'C11', 'yaml/compiler', [
    ('yaml/compiler/compiler.go', '''		if c.privileged(container) {
			step.Docker.Privileged = true
		}
''', '''		step.Docker.Privileged = c.privileged(container) ||
			step.Docker.Privileged && c.PrivilegedFunc == nil
''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	c := &Compiler{PrivilegedFunc: DindFunc([]string{"plugins/docker"})}
	p := &yaml.Pipeline{Steps: []*yaml.Container{{Name: "a", Image: "golang", Privileged: true}}}
	if !c.Compile(p).Steps[1].Docker.Privileged {
		t.Fatal("a privileged step is not privileged")
	}
}
''', 'a step that asks for privileges, with a privileged function that does not approve it', 'a step loses the privileges of its definition')

seed('C12-detach-commands', 'C12', 'yaml/compiler', [
    ('yaml/compiler/compiler.go', '''		step := createStep(spec, service)
		// note that all services are automatically
		// set to run in detached mode.
		step.Detach = true
		setupWorkingDir(service, step, workspace)
''', '''		step := createStep(spec, service)
		// note that all services are automatically
		// set to run in detached mode.
		step.Detach = step.Detach || len(service.When.Status.Include) == 0
		setupWorkingDir(service, step, workspace)
''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	sv := &yaml.Container{Name: "a", Image: "redis"}
	sv.When.Status.Include = []string{"failure"}
	if !new(Compiler).Compile(&yaml.Pipeline{Services: []*yaml.Container{sv}}).Steps[1].Detach {
		t.Fatal("a service is not detached")
	}
}
''', 'a service with a status condition', 'a service blocks the pipeline')

seed('C13-build-serial', 'C13', 'yaml/compiler', [
    ('yaml/compiler/compiler.go', '''		if len(step.DependsOn) != 0 {
			isSerial = false
			break
		}
''', '''		if len(step.DependsOn) != 0 && step.Build == nil {
			isSerial = false
			break
		}
''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	p := &yaml.Pipeline{Steps: []*yaml.Container{
		{Name: "a", Image: "golang"},
		{Name: "b", Build: &yaml.Build{Image: "x"}, DependsOn: []string{"a"}},
	}}
	if len(new(Compiler).Compile(p).Steps[1].DependsOn) == 0 {
		t.Fatal("a step starts before the clone")
	}
}
''', 'a pipeline in which only build steps declare dependencies', 'steps start before the clone')

seed('C16-exclude-failure', 'C16', 'yaml/compiler', [
    ('yaml/compiler/convert.go', '''	onFailure := from.When.Status.Match("failure") && len(from.When.Status.Include) > 0
''', '''	onFailure := from.When.Status.Match("failure") &&
		len(from.When.Status.Include)+len(from.When.Status.Exclude) > 0
''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	c := &yaml.Container{Name: "a", Image: "x"}
	c.When.Status.Exclude = []string{"success"}
	if toRunPolicy(c) != engine.RunNever {
		t.Fatal("runs on failure without including it")
	}
}
''', 'a status condition with excludes only', 'a step runs on failure that does not include failure')

seed('C18-requests-only', 'C18', 'yaml/compiler', [
    ('yaml/compiler/convert.go', '''	if from.Resources == nil {
		return nil
	}
''', '''	if from.Resources == nil || from.Resources.Limits == nil {
		return nil
	}
''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	c := &yaml.Container{Name: "a", Image: "x", Resources: &yaml.Resources{Requests: &yaml.ResourceObject{CPU: 1}}}
	if toResources(c) == nil {
		t.Fatal("resource requests lost")
	}
}
''', 'resource requests without limits', 'the resource requests of a step are lost')

seed('C20-secret-break', 'C20', 'yaml/compiler/transform', [
    ('yaml/compiler/transform/secret.go', '''			for _, v := range step.Secrets {
				set[v.Name] = struct{}{}
			}
''', '''			for _, v := range step.Secrets {
				if _, ok := set[v.Name]; ok {
					break
				}
				set[v.Name] = struct{}{}
			}
''')], '''
package transform

import (
	"testing"

	"github.com/drone/drone-runtime/engine"
)

func TestDemo(t *testing.T) {
	a := []*engine.SecretVar{{Name: "a"}}
	b := []*engine.SecretVar{{Name: "a"}, {Name: "b"}}
	n := 0
	WithSecretFunc(func(string) *engine.Secret { n++; return nil })(&engine.Spec{Steps: []*engine.Step{{Secrets: a}, {Secrets: b}}})
	if n != 2 {
		t.Fatal("secrets asked for:", n)
	}
}
''', 'two steps that share a secret, the second using another one after it', 'a step runs without its secret')

seed('C14-env-setting-clash', 'C14', 'yaml/compiler', [
    ('yaml/compiler/step.go', '''			dst.Envs[key] = encode(value.Value)
''', '''			if _, ok := dst.Envs[key]; !ok {
				dst.Envs[key] = encode(value.Value)
			}
''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	c := &yaml.Container{Name: "a", Image: "x", Environment: map[string]*yaml.Variable{"PLUGIN_X": {Value: "env"}},
		Settings: map[string]*yaml.Parameter{"x": {Value: "setting"}}}
	if createStep(&engine.Spec{}, c).Envs["PLUGIN_X"] != "setting" {
		t.Fatal("a setting is lost")
	}
}
''', 'a setting and an environment variable of the same name', 'the value of a setting is lost')

seed('C15-nested-mount', 'C15', 'yaml/compiler', [
    ('yaml/compiler/step.go', '''		if vol.Name == "_docker_socket" {
			continue
		}
''', '''		if vol.MountPath == "/var/run/docker.sock" {
			continue
		}
''')], '''
package compiler

import (
	"testing"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

func TestDemo(t *testing.T) {
	c := &yaml.Container{Name: "a", Image: "x", Volumes: []*yaml.VolumeMount{{Name: "_docker_socket", MountPath: "/sock"}}}
	if len(createStep(&engine.Spec{}, c).Volumes) != 0 {
		t.Fatal("the docker socket is mounted in a plain step")
	}
}
''', 'a mount of the docker socket volume at another path', 'a step mounts the docker socket')

seed('C19-exclude-prefix', 'C19', 'yaml/compiler/transform', [
    ('yaml/compiler/transform/filter.go', '''			if step.Metadata.Name == name {
				return
			}
			if step.Metadata.Name == "clone" {
				continue
			}
			step.RunPolicy = engine.RunNever
''', '''			if step.Metadata.Name == name {
				return
			}
			if step.Metadata.Name == "clone" || step.Detach {
				continue
			}
			step.RunPolicy = engine.RunNever
''')], '''
package transform

import (
	"testing"

	"github.com/drone/drone-runtime/engine"
)

func TestDemo(t *testing.T) {
	s := &engine.Spec{Steps: []*engine.Step{{Detach: true, Metadata: engine.Metadata{Name: "a"}}, {Metadata: engine.Metadata{Name: "b"}}}}
	ResumeAt("b")(s)
	if s.Steps[0].RunPolicy != engine.RunNever {
		t.Fatal("a step before the resumed one runs")
	}
}
''', 'a detached step before the one that is resumed', 'a step that ran already runs again')

seed('C23-comma-value', 'C23', 'yaml', [
    ('yaml/cond.go', '''		c.Include = []string{out1}
''', '''		c.Include = strings.Split(out1, ", ")
'''), ('yaml/cond.go', '''import filepath "github.com/bmatcuk/doublestar"
''', '''import (
	"strings"

	filepath "github.com/bmatcuk/doublestar"
)
''')], '''
package yaml

import (
	"testing"

	"github.com/buildkite/yaml"
)

func TestDemo(t *testing.T) {
	c := new(Condition)
	if err := yaml.Unmarshal([]byte("'{a, b}'"), c); err != nil {
		t.Fatal(err)
	}
	if len(c.Include) != 1 || c.Include[0] != "{a, b}" {
		t.Fatal("one value became several")
	}
}
''', 'one value with a comma and a blank', 'the value is split')

seed('C23-reference-written', 'C23', 'yaml', [
    ('yaml/env.go', '''	if v.Secret != "" {
		m :=''', '''	if v.Secret != "" && v.Value == "" {
		m :=''')], '''
package yaml

import "testing"

func TestDemo(t *testing.T) {
	v := &Variable{Secret: "a", Value: "b"}
	out, err := v.MarshalYAML()
	if m, ok := out.(map[string]interface{}); err != nil || !ok || m["from_secret"] != "a" {
		t.Fatal("the reference is lost")
	}
}
''', 'a variable with a value and a reference', 'the reference is not written back')

seed('C23-build-cache', 'C23', 'yaml', [
    ('yaml/build.go', '''	b.CacheFrom = d.CacheFrom
	b.Context = d.Context
''', '''	b.Context = d.Context
	if d.Context != "" || len(d.CacheFrom) == 1 {
		b.CacheFrom = d.CacheFrom
	}
''')], '''
package yaml

import (
	"testing"

	"github.com/buildkite/yaml"
)

func TestDemo(t *testing.T) {
	b := new(Build)
	if err := yaml.Unmarshal([]byte("image: a\\ncache_from: [ b, c ]\\n"), b); err != nil {
		t.Fatal(err)
	}
	if len(b.CacheFrom) != 2 {
		t.Fatal("the caches are lost")
	}
}
''', 'several caches and no context', 'cache_from is dropped')

seed('C24-exclude-deploy', 'C24', 'yaml/converter/legacy/internal', [
    ('yaml/converter/legacy/internal/config.go', '''			Exclude: toPromote(from.Event.Exclude),
''', '''			Exclude: from.Event.Exclude,
''')], '''
package yaml

import "testing"

func TestDemo(t *testing.T) {
	c := &Container{Name: "a", Image: "b"}
	c.Constraints.Event.Exclude = []string{"deployment"}
	if got := toContainer(c).When.Event.Exclude; len(got) != 1 || got[0] != "promote" {
		t.Fatal("deployments are not excluded")
	}
}
''', 'a step that excludes the deployment event', 'the step runs for promotions')

seed('C24-secret-shadow', 'C24', 'yaml/converter/legacy/internal', [
    ('yaml/converter/legacy/internal/config.go', '''		name := strings.ToUpper(val.Target)
		envs[name] = &droneyaml.Variable{
''', '''		name := strings.ToUpper(val.Target)
		if _, ok := envs[val.Target]; ok {
			continue
		}
		envs[name] = &droneyaml.Variable{
''')], '''
package yaml

import "testing"

func TestDemo(t *testing.T) {
	c := &Container{Name: "a", Image: "b"}
	c.Environment.Map = map[string]string{"token": "x"}
	c.Secrets.Secrets = []*Secret{{Source: "token", Target: "token"}}
	if v := toContainer(c).Environment["TOKEN"]; v == nil || v.Secret != "token" {
		t.Fatal("the secret is lost")
	}
}
''', 'a variable spelt like the target of a secret in lower case', 'the step lacks the secret')

seed('C24-vault-opts', 'C24', 'yaml/converter/legacy/internal', [
    ('yaml/converter/legacy/internal/config.go', '''		} else if val.Path != "" {
			secret.Get.Path = val.Path
		} else {
''', '''		} else if val.Path != "" && val.Vault == "" {
			secret.Get.Path = val.Path
		} else {
''')], '''
package yaml

import (
	"testing"

	"github.com/buildkite/yaml"
)

func TestDemo(t *testing.T) {
	c := new(Config)
	if err := yaml.Unmarshal([]byte("secrets:\\n  a: { path: p, vault: v }\\n"), c); err != nil {
		t.Fatal(err)
	}
	if got := toSecrets(c); len(got) != 1 || got[0].Get.Path != "p" {
		t.Fatal("the path of the secret is lost")
	}
}
''', 'a secret with a path and a vault entry', 'the secret is read from another place')

seed('C24-service-volume', 'C24', 'yaml/converter/legacy/internal', [
    ('yaml/converter/legacy/internal/config.go', '''			set[name] = struct{}{}
			to = append(to, &droneyaml.Volume{
''', '''			set[name] = struct{}{}
			if v.ReadOnly && container.Detached {
				continue
			}
			to = append(to, &droneyaml.Volume{
''')], '''
package yaml

import "testing"

func TestDemo(t *testing.T) {
	c := new(Config)
	c.Services.Containers = []*Container{{Name: "a", Detached: true, Volumes: []*Volume{{Source: "/a", Destination: "/b", ReadOnly: true}}}}
	if len(toVolumes(c)) != 1 {
		t.Fatal("the volume of the service is lost")
	}
}
''', 'a read-only volume of a detached container', 'a mount names a volume that is not declared')

seed('C25-byte-order-mark', 'C25', 'yaml/converter', [
    ('yaml/converter/convert.go', '''	return d, nil
}
''', '''	return bytes.TrimPrefix(d, []byte("\\xef\\xbb\\xbf")), nil
}
'''), ('yaml/converter/convert.go', '''import (
''', '''import (
	"bytes"

''')], '''
package converter

import "testing"

func TestDemo(t *testing.T) {
	s := "\\xef\\xbb\\xbfkind: pipeline\\n"
	if got, err := ConvertString(s, Metadata{Filename: ".drone.yml"}); err != nil || got != s {
		t.Fatal("a current file is changed")
	}
}
''', 'a current file with a byte order mark', 'the file is changed')

seed('C25-branch-case', 'C25', 'yaml/converter/bitbucket', [
    ('yaml/converter/bitbucket/config.go', '''	branch := strings.TrimPrefix(ref, "refs/heads/")
''', '''	branch := strings.ToLower(strings.TrimPrefix(ref, "refs/heads/"))
''')], '''
package bitbucket

import "testing"

func TestDemo(t *testing.T) {
	c := new(Config)
	c.Pipelines.Branches = map[string]Stage{"Rel-*": {Name: "x"}}
	if c.Pipeline("refs/heads/Rel-1").Name != "x" {
		t.Fatal("the pipeline of the branch is not chosen")
	}
}
''', 'a branch name with an upper case letter', 'another pipeline runs')

seed('C25-tag-fallthrough', 'C25', 'yaml/converter/bitbucket', [
    ('yaml/converter/bitbucket/config.go', '''		if ok, _ := path.Match(pattern, tag); ok {
			return pipeline
		}
''', '''		if ok, _ := path.Match(pattern, tag); ok && len(pipeline.Steps) != 0 {
			return pipeline
		}
''')], '''
package bitbucket

import "testing"

func TestDemo(t *testing.T) {
	c := new(Config)
	c.Pipelines.Default.Name = "y"
	c.Pipelines.Tags = map[string]Stage{"v*": {Name: "x"}}
	if c.Pipeline("refs/tags/v1").Name != "x" {
		t.Fatal("the pipeline of the tag is not chosen")
	}
}
''', 'a tag whose pipeline has no step', 'the default pipeline runs instead')
