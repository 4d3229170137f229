package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// opt selects what the generators produce.
type opt struct {
	text  func(*rapid.T) string // free text fields
	valid bool                  // names are unique, dependencies exist, images are set
	nulls bool                  // null entries in lists and maps
	trust bool                  // fields that need a trusted repository
	build bool                  // build steps
	img   func(*rapid.T) string
	key   func(*rapid.T) string // map keys
	max   int                   // containers per list
}

// optText is anything that a manifest can hold.
func optText() opt {
	return opt{text: anyText, nulls: true, trust: true, build: true, img: func(t *rapid.T) string {
		if chance(t, 8) {
			return anyText(t)
		}
		return image(t)
	}, key: func(t *rapid.T) string { return nonEmpty(t, shortText) }, max: 3}
}

// optValid is a pipeline that passes the linter of a trusted
// repository.
func optValid() opt {
	return opt{text: func(t *rapid.T) string {
		if chance(t, 4) {
			return anyText(t)
		}
		return pick(t, words)
	}, valid: true, trust: true, build: true, img: goodImage, key: safeIdent, max: 4}
}

// usual is o with texts that are, half of the time, one of those
// that people write for the attribute.
func (o opt) usual(vals ...string) opt {
	text := o.text
	o.text = func(t *rapid.T) string {
		if chance(t, 2) {
			return pick(t, vals)
		}
		return text(t)
	}
	return o
}

// noNull: the yaml library rejects a quoted "null" where a type
// decodes itself, whatever the type does.
func noNull(s string) string {
	if s == "null" || s == "~" {
		return "Null"
	}
	return s
}

func anyText(t *rapid.T) string { return cleanText(text(t)) }

// shortText fits a mapping key.
func shortText(t *rapid.T) string {
	s := anyText(t)
	if len(s) > 300 {
		s = strings.ToValidUTF8(s[:300], "")
	}
	return s
}

func maybe[T any](t *rapid.T, n int, f func(*rapid.T) T) (v T) {
	if chance(t, n) {
		v = f(t)
	}
	return
}

// uniq draws up to max distinct keys.
func uniq(t *rapid.T, max int, f func(*rapid.T) string) []string {
	var out []string
	seen := map[string]bool{}
	for i, n := 0, length(t, 0, max); i < n; i++ {
		k := f(t)
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

func genKVs(t *rapid.T, max int, key, val func(*rapid.T) string) []KV {
	var out []KV
	for _, k := range uniq(t, max, key) {
		out = append(out, KV{k, val(t)})
	}
	return out
}

func texts(o opt, max int) func(*rapid.T) []string {
	return func(t *rapid.T) []string { return listOf(t, 1, max, o.text) }
}

var patternPool = []string{"master", "develop", "feature/*", "feature/**", "*", "**", "release-?", "v[0-9]*", "refs/heads/*", "refs/tags/**", "!master", "[a", "{a,b}", "refs/pull/**", "push", "pull_request", "tag", "promote", "success", "failure", "octocat/*", "octocat/hello-world", "drone.company.com", "*.company.com", "production", "opened", "nightly", "", "a/b/c", "**/c", "a/**/c", "[!a]*", "\\*"}

func genCond(t *rapid.T, o opt) Cond {
	p := func(t *rapid.T) string {
		if chance(t, 3) {
			return o.text(t)
		}
		return pick(t, patternPool)
	}
	switch num(t, 0, 3) {
	case 0, 1:
		return Cond{Inc: listOf(t, 1, 3, p)}
	case 2:
		return Cond{Exc: listOf(t, 1, 2, p)}
	default:
		return Cond{Inc: listOf(t, 1, 2, p), Exc: listOf(t, 1, 2, p)}
	}
}

func genWhen(t *rapid.T, o opt) When {
	var w When
	w.each(func(name string, c *Cond) {
		if !chance(t, 5) {
			return
		}
		*c = genCond(t, o)
		if name == "status" && chance(t, 2) {
			*c = Cond{Inc: listOf(t, 0, 2, func(t *rapid.T) string { return pick(t, []string{"success", "failure", "*", "s*"}) }),
				Exc: listOf(t, 0, 1, func(t *rapid.T) string { return pick(t, []string{"success", "failure"}) })}
		}
	})
	if chance(t, 10) {
		w.Matrix = genKVs(t, 2, o.key, o.text)
	}
	return w
}

func genVal(t *rapid.T, o opt, depth int) Val {
	k := num(t, 0, 11)
	if depth <= 0 && k >= 8 {
		k = 0
	}
	switch k {
	case 0, 1, 2:
		return Val{K: "s", S: o.text(t)}
	case 3:
		return Val{K: "i", I: genInt(t)}
	case 4:
		return Val{K: "f", F: genFloatText(t)}
	case 5:
		return Val{K: "b", B: chance(t, 2)}
	case 6:
		if chance(t, 4) {
			return Val{K: "u", U: uint64(math.MaxInt64) + uint64(num(t, 1, 1000))}
		}
		return Val{K: "n"}
	case 7, 8, 9:
		return Val{K: "l", L: listOf(t, 0, 3, func(t *rapid.T) Val {
			if chance(t, 2) {
				return Val{K: "s", S: o.text(t)}
			}
			return genVal(t, o, depth-1)
		})}
	default:
		v := Val{K: "m"}
		seen := map[string]bool{}
		for i, n := 0, num(t, 0, 3); i < n; i++ {
			var k Val
			switch num(t, 0, 9) {
			case 8:
				k = Val{K: "i", I: num(t, -3, 100)}
			case 9:
				k = Val{K: "b", B: chance(t, 2)}
			default:
				k = Val{K: "s", S: o.key(t)}
			}
			if k.K == "s" && k.S == "from_secret" {
				continue
			}
			id := fmt.Sprint(k.goval())
			if seen[id] {
				continue
			}
			seen[id] = true
			v.M = append(v.M, KVal{k, genVal(t, o, depth-1)})
		}
		return v
	}
}

func genInt(t *rapid.T) int {
	switch num(t, 0, 3) {
	case 0:
		return num(t, -2, 100)
	case 1:
		return dictNum(t, 1<<30)
	case 2:
		return pick(t, []int{0, 1, -1, 8080, 65535, 1234567, 1 << 31, -1 << 31, math.MaxInt64, math.MinInt64, 1000000, 20000000, 1e15})
	default:
		return rapid.Int().Draw(t, "i")
	}
}

func genFloatText(t *rapid.T) string {
	switch num(t, 0, 4) {
	case 0:
		return pick(t, []string{"0.5", "1.0", "1.5", "-2.25", "0.0", "100000.0", "1234567.5", "3.14159", "1e+06", "1e-07", "1.0e+21", ".inf", "-.inf", ".nan"})
	case 1:
		return floatText(float64(num(t, -1000, 1000)) / 8)
	case 2:
		return floatText(float64(num(t, 0, 100000000)))
	default:
		return floatText(rapid.Float64().Draw(t, "f"))
	}
}

func genSize(t *rapid.T) int64 {
	switch num(t, 0, 4) {
	case 0:
		return int64(num(t, 0, 2000))
	case 1:
		return int64(num(t, 1, 4096)) << 10
	case 2:
		return int64(num(t, 1, 4096)) << 20
	case 3:
		return int64(num(t, 1, 64)) << 30
	default:
		return int64(rapid.Uint64Range(0, 1<<50).Draw(t, "size"))
	}
}

func genPortNum(t *rapid.T) int {
	if chance(t, 4) {
		return dictNum(t, 65535)
	}
	return num(t, 0, 65535)
}

// genCount draws a number from lo, that is small most of the time.
func genCount(t *rapid.T, lo int) int {
	if chance(t, 4) {
		return dictNum(t, 1<<33)
	}
	return num(t, lo, pick(t, []int{10, 100, 100, 5000, 70000, 1 << 33}))
}

func genCPU(t *rapid.T) float64 {
	if chance(t, 2) {
		return float64(num(t, 0, 64)) / 4
	}
	if chance(t, 3) {
		return float64(num(t, 0, pick(t, []int{2000, 1 << 20, 1 << 40}))) / 1000
	}
	return pick(t, []float64{0, 0.1, 0.001, 0.5, 1, 1.5, 2, 10, 100, 0.25, 3.3, -1, 1000000})
}

func genResObj(t *rapid.T) *ResObj { return &ResObj{CPU: genCPU(t), Memory: genSize(t)} }

func genBuild(t *rapid.T, o opt) *BuildM {
	b := &BuildM{Image: o.img(t)}
	if chance(t, 2) {
		b.Args = genKVs(t, 2, o.key, o.text)
		b.CacheFrom = maybe(t, 2, texts(o, 2))
		b.Context = maybe(t, 2, o.usual(".", "./", "/", "src", "..").text)
		b.Dockerfile = maybe(t, 2, o.usual("Dockerfile", "docker/Dockerfile.linux.amd64", "./Dockerfile").text)
		b.Labels = genKVs(t, 2, o.key, o.text)
	}
	return b
}

func genSettings(t *rapid.T, o opt) []SetM {
	var out []SetM
	for _, k := range uniq(t, 4, func(t *rapid.T) string {
		if chance(t, 3) {
			return o.key(t)
		}
		return pick(t, []string{"repo", "tags", "username", "password", "webhook", "mirror", "dry_run", "Repo", "auto_tag", "build-args", "depth", "skip_verify"})
	}) {
		s := SetM{K: k}
		switch {
		case o.nulls && chance(t, 12):
			s.Null = true
		case chance(t, 5):
			s.Secret = nonEmpty(t, o.key)
		default:
			s.V = genVal(t, o, 3)
			if s.V.K == "s" {
				s.V.S = noNull(s.V.S)
			}
		}
		if s.V.K == "n" {
			// a null value is a null entry.
			s = SetM{K: k, Null: true}
			if !o.nulls {
				s = SetM{K: k, V: Val{K: "s", S: "a"}}
			}
		}
		out = append(out, s)
	}
	return out
}

func genEnv(t *rapid.T, o opt) []EnvM {
	var out []EnvM
	for _, k := range uniq(t, 4, func(t *rapid.T) string {
		if chance(t, 4) {
			return o.key(t)
		}
		return envName(t)
	}) {
		e := EnvM{K: k}
		switch {
		case o.nulls && chance(t, 12):
			e.Null = true
		case chance(t, 4):
			e.Secret = nonEmpty(t, o.key)
		default:
			e.V = noNull(o.text(t))
		}
		out = append(out, e)
	}
	return out
}

func genMounts(t *rapid.T, o opt, max int, names []string) []MountM {
	return listOf(t, 1, max, func(t *rapid.T) MountM {
		if o.nulls && chance(t, 12) {
			return MountM{Null: true}
		}
		m := MountM{Name: o.text(t), Path: absPath(t)}
		if len(names) > 0 && !chance(t, 4) {
			m.Name = pick(t, names)
		}
		if o.valid && (m.Name == "workspace" || m.Name == "_workspace" || m.Name == "_docker_socket") {
			m.Name = "data"
		}
		if !o.valid && m.Name == "" && m.Path == "" {
			m.Name = "a"
		}
		return m
	})
}

func genStep(t *rapid.T, o opt, vols []string) StepM {
	if o.nulls && chance(t, 40) {
		return StepM{Null: true}
	}
	s := StepM{Name: o.text(t)}
	if o.valid {
		s.Name = nonEmpty(t, o.key)
	}
	switch {
	case o.build && chance(t, 6):
		s.Build = genBuild(t, o)
		if chance(t, 3) {
			s.Image = o.img(t)
		}
	default:
		s.Image = o.img(t)
		if !o.valid && chance(t, 10) {
			s.Image = ""
		}
	}
	if chance(t, 10) {
		v := o.img(t)
		s.Push = &v
	}
	if chance(t, 2) {
		s.Commands = listOf(t, 1, 4, o.text)
	}
	s.Command = maybe(t, 8, texts(o.usual("-c", "--port", "6379", "-e", "sleep 1", "/bin/sh"), 3))
	s.Entrypoint = maybe(t, 8, texts(o.usual("/bin/sh", "sh", "/bin/bash", "-c", "docker-entrypoint.sh"), 3))
	s.Detach = chance(t, 8)
	if o.trust {
		s.DNS = maybe(t, 10, texts(o.usual("8.8.8.8", "1.1.1.1", "127.0.0.1", "::1", "0.0.0.0"), 2))
		s.DNSSearch = maybe(t, 10, texts(o.usual("example.com", "local", ".", "a.b.c."), 2))
		s.ExtraHosts = maybe(t, 10, texts(o.usual("db:127.0.0.1", "somehost:162.242.195.82", "a:::1", "localhost:127.0.0.1"), 2))
		s.Network = maybe(t, 10, o.usual("host", "none", "bridge", "default", "container:a", "HOST").text)
		s.Privileged = chance(t, 10)
		if chance(t, 10) {
			s.Devices = genMounts(t, o, 2, nil)
		}
	}
	if chance(t, 2) {
		s.Env = genEnv(t, o)
	}
	if chance(t, 2) {
		s.Settings = genSettings(t, o)
	}
	if chance(t, 5) {
		s.Failure = pick(t, []string{"ignore", "Ignore", "always", "fail", "IGNORE", "ignored"})
	}
	if chance(t, 5) {
		s.Pull = pick(t, []string{"always", "never", "if-not-exists", "Always", "default", "true", "ALWAYS", "foo"})
	}
	if chance(t, 6) {
		s.Ports = listOf(t, 1, 3, func(t *rapid.T) PortM {
			if o.nulls && chance(t, 12) {
				return PortM{Null: true}
			}
			p := PortM{Port: genPortNum(t)}
			if o.trust && chance(t, 3) {
				p.Host = genPortNum(t)
				if chance(t, 8) {
					p.Host = genInt(t)
				}
			}
			if chance(t, 3) {
				p.Proto = pick(t, []string{"tcp", "udp", "TCP"})
			}
			if p.Port == 0 && p.Host == 0 && p.Proto == "" {
				p.Port = 80
			}
			return p
		})
	}
	if chance(t, 8) {
		r := &ResM{}
		if chance(t, 2) {
			r.Limits = genResObj(t)
		}
		if chance(t, 2) {
			r.Requests = genResObj(t)
		}
		s.Resources = r
	}
	s.Shell = maybe(t, 12, o.usual("sh", "bash", "powershell", "/bin/sh").text)
	s.User = maybe(t, 10, o.usual("root", "0", "nobody", "1000", "1000:1000", "0:0", "Root").text)
	s.WorkingDir = maybe(t, 6, absPath)
	if chance(t, 4) {
		s.Volumes = genMounts(t, o, 3, vols)
	}
	if chance(t, 3) {
		s.When = genWhen(t, o)
	}
	if !o.valid && chance(t, 6) {
		s.DependsOn = listOf(t, 1, 3, o.text)
	}
	return s
}

func genVolume(t *rapid.T, o opt) VolM {
	if o.nulls && chance(t, 15) {
		return VolM{Null: true}
	}
	v := VolM{Name: nonEmpty(t, o.key)}
	if o.valid && (v.Name == "workspace" || v.Name == "_workspace" || v.Name == "_docker_socket") {
		v.Name = "data"
	}
	if !o.trust || chance(t, 2) {
		v.Temp = true
		if o.trust {
			v.Medium = maybe(t, 3, func(t *rapid.T) string { return pick(t, []string{"memory", "disk", "Memory"}) })
		}
		if chance(t, 3) {
			v.Size = genSize(t)
		}
	}
	if o.trust && chance(t, 3) {
		p := absPath(t)
		v.Host = &p
	}
	return v
}

var osPool = []string{"", "", "", "linux", "linux", "windows", "windows"}
var archPool = []string{"", "", "amd64", "arm", "arm64", "ppc64le", "s390x"}

func genPipe(t *rapid.T, o opt) PipeM {
	p := PipeM{Kind: "pipeline", Name: o.text(t)}
	if o.valid {
		p.Name = nonEmpty(t, o.key)
		p.OS, p.Arch = pick(t, osPool), pick(t, archPool)
		if chance(t, 3) {
			p.OSVersion = pick(t, []string{"1803", "1809", "1903", "1709", "2004", "10"})
		}
		p.Variant = maybe(t, 6, func(t *rapid.T) string { return pick(t, []string{"v6", "v7", "v8"}) })
	} else {
		p.Version = maybe(t, 8, o.text)
		if chance(t, 2) {
			p.OS, p.Arch = o.text(t), o.text(t)
			p.Variant, p.OSVersion = maybe(t, 2, o.text), maybe(t, 2, o.text)
		}
		if chance(t, 10) {
			p.Kind = nonEmpty(t, o.text)
			switch p.Kind {
			case "cron", "secret", "signature", "registry":
				p.Kind = "pipeline"
			}
		}
	}
	p.Type = maybe(t, 3, func(t *rapid.T) string { return pick(t, []string{"docker", "kubernetes", "exec", "ssh"}) })
	p.CloneOff = chance(t, 4)
	p.Depth = maybe(t, 4, func(t *rapid.T) int { return genCount(t, 0) })
	p.SkipVerify = chance(t, 6)
	p.Limit = maybe(t, 8, func(t *rapid.T) int { return genCount(t, 0) })
	p.Node = maybe(t, 8, func(t *rapid.T) []KV { return genKVs(t, 2, o.key, o.text) })
	p.PullSecrets = maybe(t, 8, texts(o, 2))
	p.DependsOn = maybe(t, 8, texts(o, 2))
	if chance(t, 4) {
		p.Trigger = genWhen(t, o)
	}
	if chance(t, 3) {
		p.Volumes = listOf(t, 1, 3, func(t *rapid.T) VolM { return genVolume(t, o) })
	}
	var vols []string
	for _, v := range p.Volumes {
		vols = append(vols, v.Name)
	}
	p.Base = maybe(t, 4, absPath)
	p.Path = maybe(t, 4, absPath)
	if p.Path != "" && chance(t, 2) {
		p.Path = strings.TrimPrefix(p.Path, "/")
	}
	p.Services = listOf(t, 0, 2, func(t *rapid.T) StepM { return genStep(t, o, vols) })
	p.Steps = listOf(t, 0, o.max, func(t *rapid.T) StepM { return genStep(t, o, vols) })
	if o.valid {
		linkSteps(t, &p)
	}
	return p
}

// nearText draws a text that is almost s, and never empty.
func nearText(t *rapid.T, s string) string {
	r := []rune(s)
	return pick(t, []string{s + " ", " " + s, s + s, s + "_", s + ".", "/" + s, strings.ToUpper(s), strings.ToLower(s), strings.Title(s),
		strings.ReplaceAll(s, "-", "_"), strings.ReplaceAll(s, "_", "-"), s + "\u00a0", s + "\t", string(r[:(len(r)+1)/2]), s + "-1", s + "_1"})
}

// linkSteps makes the names unique and draws dependencies that
// the linter accepts.
func linkSteps(t *rapid.T, p *PipeM) {
	used := map[string]bool{"clone": !p.CloneOff}
	var before []string
	if p.CloneOff && chance(t, 3) {
		// a clone step of the user.
		if len(p.Steps) > 0 {
			p.Steps[0].Name = "clone"
		} else if len(p.Services) > 0 {
			p.Services[0].Name = "clone"
		}
	}
	if !p.CloneOff {
		before = append(before, "clone")
	}
	graph := chance(t, 2)
	for i := range p.Steps {
		s := &p.Steps[i]
		if s.Null {
			continue
		}
		if len(before) > 0 && chance(t, 10) {
			s.Name = nearText(t, pick(t, before))
		}
		for n := 0; used[s.Name]; n++ {
			s.Name = s.Name + strconv.Itoa(n)
		}
		used[s.Name] = true
		if graph && len(before) > 0 && chance(t, 2) {
			s.DependsOn = listOf(t, 1, 3, func(t *rapid.T) string { return pick(t, before) })
		}
		before = append(before, s.Name)
	}
	for i := range p.Services {
		s := &p.Services[i]
		if s.Null {
			continue
		}
		if len(before) > 0 && chance(t, 10) {
			s.Name = nearText(t, pick(t, before))
		}
		for n := 0; used[s.Name]; n++ {
			s.Name = s.Name + strconv.Itoa(n)
		}
		used[s.Name] = true
	}
}

func genData(t *rapid.T) string {
	return rapid.StringMatching(`[A-Za-z0-9+/]{1,100}={0,2}`).Draw(t, "data")
}

func genResource(t *rapid.T, o opt) ResourceM {
	ver := maybe(t, 10, o.text)
	typ := maybe(t, 6, o.text)
	switch num(t, 0, 9) {
	case 6:
		return ResourceM{Cron: &CronM{Version: ver, Kind: "cron", Type: typ, Name: o.text(t), Schedule: o.text(t), Branch: o.text(t), Target: maybe(t, 2, o.text)}}
	case 7:
		s := &SecretM{Version: ver, Kind: "secret", Type: typ, Name: o.text(t)}
		if chance(t, 2) {
			s.Data = genData(t)
		}
		if chance(t, 2) {
			s.GetPath, s.GetName, s.GetKey = maybe(t, 2, o.text), maybe(t, 2, o.text), maybe(t, 2, o.text)
		}
		return ResourceM{Sec: s}
	case 8:
		return ResourceM{Reg: &RegistryM{Version: ver, Kind: "registry", Type: typ, Data: genKVs(t, 3, o.key, genData)}}
	case 9:
		return ResourceM{Sig: &SigM{Version: ver, Kind: "signature", Hmac: o.text(t)}}
	default:
		p := genPipe(t, o)
		return ResourceM{Pipe: &p}
	}
}

func genManifest(t *rapid.T, o opt) ManifestM {
	return ManifestM{R: listOf(t, 1, 3, func(t *rapid.T) ResourceM { return genResource(t, o) })}
}

func genStyle(t *rapid.T) []int {
	if chance(t, 6) {
		return nil
	}
	n := pick(t, []int{60, 10, 200, 400})
	return rapid.SliceOfN(rapid.IntRange(0, 719), n, n).Draw(t, "style")
}

// FileCase is a manifest and the way it is written.
type FileCase struct {
	M     ManifestM `json:"m"`
	Style []int     `json:"style,omitempty"`
}

func genFile(o opt) func(*rapid.T) FileCase {
	return func(t *rapid.T) FileCase { return FileCase{genManifest(t, o), genStyle(t)} }
}

func (f *FileCase) text(features map[string]int) (string, []*Node) {
	return f.M.emit(f.Style, features)
}
