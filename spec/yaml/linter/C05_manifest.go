package linter

import "github.com/drone/drone-yaml/yaml"

func P_C05_names(m *yaml.Manifest, trusted bool) {
	vRequire(Manifest(m, trusted) == nil)
	vEnsure("pipeline names unique", vForall(len(m.Resources), func(i int) bool {
		return !isPipe(m, i) || vForall(i, func(j int) bool {
			return !isPipe(m, j) || pipe(m, i).Name != pipe(m, j).Name
		})
	}))
}

func P_C05_deps(m *yaml.Manifest, trusted bool) {
	vRequire(Manifest(m, trusted) == nil)
	vEnsure("every dependency is another, earlier pipeline", vForall(len(m.Resources), func(i int) bool {
		return !isPipe(m, i) || vForall(len(pipe(m, i).DependsOn), func(d int) bool {
			return vExists(i, func(j int) bool { return isPipe(m, j) && pipe(m, j).Name == pipe(m, i).DependsOn[d] })
		})
	}))
}

func docker(p *yaml.Pipeline) bool {
	return (p.Kind == "pipeline" || p.Kind == "") && (p.Type == "" || p.Type == "docker")
}

func okPlatform(p *yaml.Pipeline) bool {
	os, arch := p.Platform.OS, p.Platform.Arch
	return (os == "" || os == "linux" || os == "windows") &&
		(arch == "" || arch == "arm" || arch == "arm64" || arch == "amd64" || arch == "ppc64le" || arch == "s390x")
}

func P_C05_platform(m *yaml.Manifest, trusted bool) {
	vRequire(Manifest(m, trusted) == nil)
	vEnsure("docker pipelines name a supported platform", vForall(len(m.Resources), func(i int) bool {
		return !isPipe(m, i) || !docker(pipe(m, i)) || okPlatform(pipe(m, i))
	}))
}

func P_C05_accepts(m *yaml.Manifest, trusted bool) {
	vRequire(vForall(len(m.Resources), func(i int) bool {
		return !isPipe(m, i) || ((!docker(pipe(m, i)) || okPlatform(pipe(m, i))) &&
			vForall(i, func(j int) bool { return !isPipe(m, j) || pipe(m, i).Name != pipe(m, j).Name }) &&
			vForall(len(pipe(m, i).DependsOn), func(d int) bool {
				return vExists(i, func(j int) bool { return isPipe(m, j) && pipe(m, j).Name == pipe(m, i).DependsOn[d] })
			}))
	}))
	vEnsure("a conforming manifest is accepted", Manifest(m, trusted) == nil)
}

func P_C05_pure(m *yaml.Manifest, trusted bool) {
	Manifest(m, trusted)
	vEnsure("linting does not change the manifest", vUnchanged())
}
