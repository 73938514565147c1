From e1b27867cf6101dbf810346862b6cb4cc59ac0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:40 +0000
Subject: [PATCH 1/6] fix: report a read error or an over-long line when
 splitting documents

ParseRaw ignored the scanner error, so a configuration that could not be
read in full was silently truncated and the rest of it accepted.
---
 yaml/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yaml/parse.go b/yaml/parse.go
index 522ff79..ef7e8c2 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -130,6 +130,9 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 			newline,
 		)
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 	for _, resource := range resources {
 		err := yaml.Unmarshal(resource.Data, resource)
 		if err != nil {
-- 
2.43.0


From a6d2eb6f2dddb5fe307b79976b935db88833f802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:40 +0000
Subject: [PATCH 2/6] fix: give the host workspace volume its namespace and
 labels

Every other compiled object carries the pipeline namespace and a label
map; transforms that write labels panicked on the nil map.
---
 yaml/compiler/workspace.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/workspace.go b/yaml/compiler/workspace.go
index 600f4af..41d87d4 100644
--- a/yaml/compiler/workspace.go
+++ b/yaml/compiler/workspace.go
@@ -118,8 +118,10 @@ func CreateHostWorkspace(workdir string) func(*engine.Spec) {
 			spec.Docker.Volumes,
 			&engine.Volume{
 				Metadata: engine.Metadata{
-					UID:  rand.String(),
-					Name: workspaceHostName,
+					UID:       rand.String(),
+					Name:      workspaceHostName,
+					Namespace: spec.Metadata.Namespace,
+					Labels:    map[string]string{},
 				},
 				HostPath: &engine.VolumeHostPath{
 					Path: workdir,
-- 
2.43.0


From 3d3b95fb6f173ff2c03ba127cc68805be5cdc1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:40 +0000
Subject: [PATCH 3/6] fix: escape backticks in the traced command

The trace line echoes the command in double quotes, where the shell still
performs command substitution for backticks: the substituted command ran
twice.
---
 yaml/compiler/script_posix.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/compiler/script_posix.go b/yaml/compiler/script_posix.go
index ea5b2ed..1628326 100644
--- a/yaml/compiler/script_posix.go
+++ b/yaml/compiler/script_posix.go
@@ -29,6 +29,7 @@ func setupScript(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 	for _, command := range src.Commands {
 		escaped := fmt.Sprintf("%q", command)
 		escaped = strings.Replace(escaped, "$", `\$`, -1)
+		escaped = strings.Replace(escaped, "`", "\\`", -1)
 		buf.WriteString(fmt.Sprintf(
 			traceScript,
 			escaped,
-- 
2.43.0


From eac7dbad4ff8a793682bfba761f6daa413e8ff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:40 +0000
Subject: [PATCH 4/6] fix: escape single quotes in the traced powershell
 command

The trace line echoes the command in a single quoted string, which a
single quote in the command terminated, leaving the script invalid.
---
 yaml/compiler/script_win.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/compiler/script_win.go b/yaml/compiler/script_win.go
index b69496c..cf390bb 100644
--- a/yaml/compiler/script_win.go
+++ b/yaml/compiler/script_win.go
@@ -29,6 +29,7 @@ func setupScriptWin(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 	for _, command := range src.Commands {
 		escaped := fmt.Sprintf("%q", command)
 		escaped = strings.Replace(escaped, "$", `\$`, -1)
+		escaped = strings.Replace(escaped, "'", "''", -1)
 		buf.WriteString(fmt.Sprintf(
 			traceScriptWin,
 			escaped,
-- 
2.43.0


From 8f3511319e5067577d4cfa6b11d1ca5c94521e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:40 +0000
Subject: [PATCH 5/6] fix: honour the save flag of the convert command

runConvert tested the save flag of the fmt command, so convert --save
never wrote the file.
---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 9dd0627..3baad89 100644
--- a/main.go
+++ b/main.go
@@ -114,7 +114,7 @@ func runConvert() error {
 	if err != nil {
 		return err
 	}
-	if *formatSave {
+	if *convertSave {
 		return ioutil.WriteFile(f.Name(), b, 0644)
 	}
 	_, err = io.Copy(os.Stderr, bytes.NewReader(b))
-- 
2.43.0


From 149f9f322508ae00ddd021391d6707693473ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 6/6] fix: linter rejects empty list items instead of crashing

An empty item in the steps, services, volumes, ports or mounts of a
pipeline is parsed as a nil pointer; linting it (and compiling it when
it was let through) panicked.
---
 yaml/linter/linter.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/yaml/linter/linter.go b/yaml/linter/linter.go
index 27b35cb..9d4a7af 100644
--- a/yaml/linter/linter.go
+++ b/yaml/linter/linter.go
@@ -47,6 +47,10 @@ var ErrMissingDependency = errors.New("linter: invalid or unknown step dependenc
 // infinite execution loop.
 var ErrCyclicalDependency = errors.New("linter: cyclical step dependency detected")
 
+// ErrMissingContainer is returned when a Pipeline step or
+// service is empty.
+var ErrMissingContainer = errors.New("linter: invalid or missing container")
+
 // Lint performs lint operations for a resource.
 func Lint(resource yaml.Resource, trusted bool) error {
 	switch v := resource.(type) {
@@ -79,6 +83,10 @@ func checkPipeline(pipeline *yaml.Pipeline, trusted bool) error {
 		names["clone"] = struct{}{}
 	}
 	for _, container := range pipeline.Steps {
+		// an empty list item is parsed as a nil container.
+		if container == nil {
+			return ErrMissingContainer
+		}
 		_, ok := names[container.Name]
 		if ok {
 			return ErrDuplicateStepName
@@ -96,6 +104,10 @@ func checkPipeline(pipeline *yaml.Pipeline, trusted bool) error {
 		}
 	}
 	for _, container := range pipeline.Services {
+		// an empty list item is parsed as a nil container.
+		if container == nil {
+			return ErrMissingContainer
+		}
 		_, ok := names[container.Name]
 		if ok {
 			return ErrDuplicateStepName
@@ -159,6 +171,9 @@ func checkContainer(container *yaml.Container, trusted bool) error {
 		return errors.New("linter: untrusted repositories cannot configure network_mode")
 	}
 	for _, mount := range container.Volumes {
+		if mount == nil {
+			return errors.New("linter: invalid or missing volume mount")
+		}
 		switch mount.Name {
 		case "workspace", "_workspace", "_docker_socket":
 			return fmt.Errorf("linter: invalid volume name: %s", mount.Name)
@@ -178,6 +193,9 @@ func checkPorts(ports []*yaml.Port, trusted bool) error {
 }
 
 func checkPort(port *yaml.Port, trusted bool) error {
+	if port == nil {
+		return errors.New("linter: invalid or missing port")
+	}
 	if trusted == false && port.Host != 0 {
 		return errors.New("linter: untrusted repositories cannot map to a host port")
 	}
@@ -186,6 +204,9 @@ func checkPort(port *yaml.Port, trusted bool) error {
 
 func checkVolumes(pipeline *yaml.Pipeline, trusted bool) error {
 	for _, volume := range pipeline.Volumes {
+		if volume == nil {
+			return errors.New("linter: invalid or missing volume")
+		}
 		if volume.EmptyDir != nil {
 			err := checkEmptyDirVolume(volume.EmptyDir, trusted)
 			if err != nil {
-- 
2.43.0

