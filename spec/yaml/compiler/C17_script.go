//go:build go1.18

package compiler

import (
	"encoding/base64"
	"strconv"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
)

// posixHead runs before the commands: it stores the clone credentials for
// git, removes them from the environment and makes the first failure final.
const posixHead = `
if [ -n "$CI_NETRC_MACHINE" ]; then
cat <<EOF > $HOME/.netrc
machine $CI_NETRC_MACHINE
login $CI_NETRC_USERNAME
password $CI_NETRC_PASSWORD
EOF
chmod 0600 $HOME/.netrc
fi
unset CI_NETRC_USERNAME
unset CI_NETRC_PASSWORD
unset DRONE_NETRC_USERNAME
unset DRONE_NETRC_PASSWORD
set -e
`

const windowsHead = `
if ($Env:CI_NETRC_MACHINE) {
@"
machine $Env:CI_NETRC_MACHINE
login $Env:CI_NETRC_USERNAME
password $Env:CI_NETRC_PASSWORD
"@ > (Join-Path $Env:USERPROFILE '_netrc');
}
[Environment]::SetEnvironmentVariable("CI_NETRC_USERNAME", $null);
[Environment]::SetEnvironmentVariable("CI_NETRC_PASSWORD", $null);
[Environment]::SetEnvironmentVariable("DRONE_NETRC_USERNAME", $null);
[Environment]::SetEnvironmentVariable("DRONE_NETRC_PASSWORD", $null);
[Environment]::SetEnvironmentVariable("CI_SCRIPT", $null);
$ErrorActionPreference = 'Stop';
`

// echoed is the argument of the trace line: the command in double quotes,
// with nothing left in it that the shell would expand or run.
func echoed(command string) string {
	s := strings.Replace(strconv.Quote(command), "$", `\$`, -1)
	return strings.Replace(s, "`", "\\`", -1)
}

// echoedWindows is the text of the trace line: the command inside a single
// quoted string, which only a single quote can end.
func echoedWindows(command string) string {
	s := strings.Replace(strconv.Quote(command), "$", `\$`, -1)
	return strings.Replace(s, "'", "''", -1)
}

// posixBody: every command in order, each traced and then run verbatim.
func posixBody(commands []string) string {
	s := ""
	for _, c := range commands {
		s = s + "\necho + " + echoed(c) + "\n" + c + "\n"
	}
	return s
}

func windowsBody(commands []string) string {
	s := ""
	for _, c := range commands {
		s = s + "\nWrite-Output ('+ " + echoedWindows(c) + "');\n& " + c + "; if ($LASTEXITCODE -ne 0) {exit $LASTEXITCODE}\n"
	}
	return s
}

func P_C17_posix(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
	vRequire(dst.Docker != nil)
	n, m := len(spec.Files), len(dst.Files)
	want := posixHead + posixBody(src.Commands) + "\n"
	setupScript(spec, dst, src)
	vEnsure("one file is added for the step", len(spec.Files) == n+1 && spec.Files[n].Metadata.Name == src.Name && spec.Files[n].Metadata.Namespace == spec.Metadata.Namespace)
	vEnsure("the script is the prelude and every command, traced, verbatim and in order", string(spec.Files[n].Data) == want)
	vEnsure("the file is mounted into the step and executable", len(dst.Files) == m+1 && dst.Files[m].Name == src.Name && dst.Files[m].Path == "/usr/drone/bin/init" && dst.Files[m].Mode == 0777)
	vEnsure("the step runs the script and nothing else", len(dst.Docker.Command) == 1 && dst.Docker.Command[0] == "/bin/sh" && len(dst.Docker.Args) == 1 && dst.Docker.Args[0] == "/usr/drone/bin/init")
}

func P_C17_windows(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
	vRequire(dst.Docker != nil && dst.Envs != nil)
	n := len(spec.Files)
	want := windowsHead + windowsBody(src.Commands) + "\n"
	setupScriptWin(spec, dst, src)
	vEnsure("the script is the prelude and every command, traced, verbatim and in order", dst.Envs["CI_SCRIPT"] == base64.StdEncoding.EncodeToString([]byte(want)))
	vEnsure("the step decodes and runs the script and nothing else", len(dst.Docker.Command) == 4 && dst.Docker.Command[0] == "powershell" && len(dst.Docker.Args) == 1 &&
		dst.Docker.Args[0] == "[System.Text.Encoding]::UTF8.GetString([System.Convert]::FromBase64String($Env:CI_SCRIPT)) | iex")
	vEnsure("no file is added", len(spec.Files) == n)
}

func P_C17_step(spec *engine.Spec, src *yaml.Container) {
	n, files := len(spec.Files), spec.Files
	posix := posixHead + posixBody(src.Commands) + "\n"
	windows := windowsHead + windowsBody(src.Commands) + "\n"
	dst := createStep(spec, src)
	win := spec.Platform.OS == "windows"
	if len(src.Commands) == 0 {
		vEnsure("no commands: no script and no file", len(spec.Files) == n && len(dst.Files) == 0)
	} else if win {
		vEnsure("windows: the commands are in the script variable", dst.Envs["CI_SCRIPT"] == base64.StdEncoding.EncodeToString([]byte(windows)) && len(dst.Files) == 0 && len(spec.Files) == n)
		vEnsure("windows: the script is the entrypoint", len(dst.Docker.Command) == 4 && dst.Docker.Command[0] == "powershell")
	} else {
		vEnsure("posix: the commands are in the one file added", len(spec.Files) == n+1 && string(spec.Files[n].Data) == posix && spec.Files[n].Metadata.Name == src.Name)
		vEnsure("posix: the file is the entrypoint", len(dst.Files) == 1 && dst.Files[0].Name == src.Name && len(dst.Docker.Command) == 1 && dst.Docker.Command[0] == "/bin/sh" &&
			len(dst.Docker.Args) == 1 && dst.Docker.Args[0] == dst.Files[0].Path)
	}
	vEnsure("earlier files are kept", vForall(n, func(i int) bool { return spec.Files[i] == files[i] }))
}
