package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"path"
	"sort"
	"strconv"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"pgregory.net/rapid"
)

// ---- C13-C24: the compiler, against a reference compiler. ----

// CompCase is a pipeline and the options of the compiler.
type CompCase struct {
	P     PipeM             `json:"p"`
	Creds string            `json:"creds,omitempty"`
	Dind  []string          `json:"dind,omitempty"`
	Skip  []string          `json:"skip,omitempty"` // names of skipped steps
	Data  map[string]string `json:"data,omitempty"` // or: the build, for the conditions
	Host  string            `json:"host,omitempty"`
	Own   bool              `json:"own,omitempty"` // a workspace of the caller
	Style []int             `json:"style,omitempty"`
	Plain bool              `json:"plain,omitempty"` // no options at all
}

// simplePatterns have an obvious meaning: literals and a star
// within one path component.
var simplePatterns = []string{"master", "develop", "feature/*", "*", "rel*", "push", "tag", "production", "nightly", "octocat/hello-world", "octocat/*", "drone.company.com", "*.com", "refs/heads/master", "refs/*/master", "opened", "Master"}
var simpleValues = []string{"master", "develop", "feature/a", "feature/a/b", "release", "push", "tag", "production", "nightly", "octocat/hello-world", "drone.company.com", "refs/heads/master", "opened", ""}

func simpleMatch(p, v string) bool {
	for p != "" {
		if p[0] == '*' {
			rest := p[1:]
			for i := 0; ; i++ {
				if simpleMatch(rest, v[i:]) {
					return true
				}
				if i >= len(v) || v[i] == '/' {
					return false
				}
			}
		}
		if v == "" || v[0] != p[0] {
			return false
		}
		p, v = p[1:], v[1:]
	}
	return v == ""
}

func (c Cond) simple(v string) bool {
	for _, p := range c.Exc {
		if simpleMatch(p, v) {
			return false
		}
	}
	for _, p := range c.Inc {
		if simpleMatch(p, v) {
			return true
		}
	}
	return len(c.Inc) == 0
}

func genSimpleWhen(t *rapid.T) When {
	var w When
	w.each(func(name string, c *Cond) {
		if name == "status" {
			if chance(t, 2) {
				st := func(t *rapid.T) string { return pick(t, []string{"success", "failure", "*", "s*", "f*", "killed"}) }
				c.Inc = listOf(t, 0, 2, st)
				if chance(t, 3) {
					c.Exc = listOf(t, 0, 1, st)
				}
			}
			return
		}
		if !chance(t, 8) {
			return
		}
		pat := func(t *rapid.T) string { return pick(t, simplePatterns) }
		switch num(t, 0, 2) {
		case 0:
			c.Inc = listOf(t, 1, 3, pat)
		case 1:
			c.Exc = listOf(t, 1, 2, pat)
		default:
			c.Inc, c.Exc = listOf(t, 1, 2, pat), listOf(t, 1, 2, pat)
		}
	})
	return w
}

func (v *Val) each(f func(*Val)) {
	f(v)
	for i := range v.L {
		v.L[i].each(f)
	}
	for i := range v.M {
		v.M[i].K.each(f)
		v.M[i].V.each(f)
	}
}

// finite keeps the settings within what json can represent.
func finite(s *StepM) {
	for i := range s.Settings {
		s.Settings[i].V.each(func(v *Val) {
			if v.K == "f" {
				if f := parseFloat(v.F); math.IsNaN(f) || math.IsInf(f, 0) || f == 0 {
					v.F = "0.5"
				}
			}
			if v.K == "m" {
				// keys that are the same text.
				seen := map[string]bool{}
				var out []KVal
				for _, kv := range v.M {
					k := fmt.Sprint(kv.K.goval())
					if !seen[k] {
						seen[k] = true
						out = append(out, kv)
					}
				}
				v.M = out
			}
		})
	}
}

// buildDomain makes the images of the build steps different from
// the images the compiler uses itself. An image can be built more
// than once, under several spellings: the last build wins.
func buildDomain(p *PipeM) {
	seen := map[string]bool{refExpand("drone/git"): true, refExpand("drone/docker"): true}
	for i := range p.Steps {
		b := p.Steps[i].Build
		if b == nil {
			continue
		}
		for n := 0; b.Image == "" || seen[refExpand(b.Image)] || strings.HasPrefix(refExpand(b.Image), "docker.io/drone/git:"); n++ {
			b.Image = "octocat/built" + strconv.Itoa(n)
		}
	}
}

func genCompWith(o func() opt) func(t *rapid.T) CompCase {
	return func(t *rapid.T) CompCase {
		op := o()
		op.nulls = chance(t, 3)
		c := CompCase{P: genPipe(t, op)}
		// images that are built, and steps that use them.
		var images []string
		for i := range c.P.Steps {
			if b := c.P.Steps[i].Build; b != nil && !c.P.Steps[i].Null {
				images = append(images, b.Image)
			}
		}
		var names []string
		for _, s := range containersOf(&c.P) {
			s.When = When{}
			if chance(t, 2) {
				s.When = genSimpleWhen(t)
			}
			finite(s)
			if len(images) > 0 && s.Build == nil && chance(t, 3) {
				s.Image = respell(t, pick(t, images))
			}
			if len(images) > 1 && s.Build != nil && chance(t, 4) {
				s.Build.Image = respell(t, pick(t, images))
			}
			names = append(names, s.Name)
		}
		buildDomain(&c.P)
		for i := range c.P.Volumes {
			if c.P.Volumes[i].Name == "host" {
				c.P.Volumes[i].Name = "hosts"
			}
		}
		for _, s := range containersOf(&c.P) {
			for i := range s.Volumes {
				if s.Volumes[i].Name == "host" {
					s.Volumes[i].Name = "hosts"
				}
			}
		}
		if chance(t, 6) {
			c.Plain = true
		} else {
			if chance(t, 2) {
				c.Creds = "https://user:" + pick(t, words) + "@github.com\n"
			}
			if chance(t, 2) {
				c.Dind = listOf(t, 1, 2, goodImage)
				if len(names) > 0 && chance(t, 2) {
					s := pick(t, containersOf(&c.P))
					c.Dind = append(c.Dind, respell(t, s.Image))
				}
			}
			switch num(t, 0, 2) {
			case 1:
				c.Skip = listOf(t, 1, 2, func(t *rapid.T) string {
					if len(names) == 0 {
						return "a"
					}
					return pick(t, names)
				})
			case 2:
				c.Data = map[string]string{}
				for _, k := range []string{"branch", "cron", "event", "instance", "ref", "repo", "target", "action"} {
					c.Data[k] = pick(t, simpleValues)
				}
			}
			if chance(t, 5) {
				c.Host = absPath(t)
			}
		}
		if chance(t, 3) {
			c.Style = genStyle(t)
		}
		return c
	}
}

// respell writes an image reference in another way. It is often
// the same image, and sometimes a similar one.
func respell(t *rapid.T, s string) string {
	r, ok := parseRef(s)
	if !ok {
		return s
	}
	name := r.path
	if r.domain != "docker.io" {
		name = r.domain + "/" + r.path
	} else {
		name = strings.TrimPrefix(name, "library/")
		switch num(t, 0, 5) {
		case 0:
			name = "docker.io/" + r.path
		case 1:
			name = "index.docker.io/" + r.path
		case 2:
			name = "docker.io/" + name
		}
	}
	if chance(t, 12) {
		name = pick(t, []string{name + "x", "x/" + name, strings.ToUpper(name), "quay.io/" + strings.TrimPrefix(name, "docker.io/")})
	}
	switch num(t, 0, 7) {
	case 0:
		return name + ":latest"
	case 1:
		return name
	case 2:
		return name + ":1"
	case 3:
		return name + "@sha256:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"
	default:
		if r.tag != "" {
			name += ":" + r.tag
		}
		if r.digest != "" {
			name += "@" + r.digest
		}
		return name
	}
}

func (in *CompCase) compiler() *compiler.Compiler {
	c := &compiler.Compiler{}
	if in.Plain {
		return c
	}
	if in.Creds != "" {
		c.GitCredentialsFunc = func() []byte { return []byte(in.Creds) }
	}
	if in.Dind != nil {
		c.PrivilegedFunc = compiler.DindFunc(in.Dind)
	}
	if in.Skip != nil {
		c.SkipFunc = func(s *yaml.Container) bool { return inList(s.Name, in.Skip) }
	}
	if d := in.Data; d != nil {
		c.SkipFunc = compiler.SkipFunc(compiler.SkipData{Branch: d["branch"], Cron: d["cron"], Event: d["event"], Instance: d["instance"], Ref: d["ref"], Repo: d["repo"], Target: d["target"], Action: d["action"]})
	}
	if in.Host != "" {
		c.WorkspaceFunc = compiler.CreateHostWorkspace(in.Host)
		c.WorkspaceMountFunc = compiler.MountHostWorkspace
	} else if in.Own {
		c.WorkspaceFunc = func(spec *engine.Spec) {
			spec.Docker.Volumes = append(spec.Docker.Volumes, &engine.Volume{
				Metadata: engine.Metadata{UID: "own" + spec.Metadata.UID, Name: "own", Namespace: spec.Metadata.Namespace, Labels: map[string]string{}},
				HostPath: &engine.VolumeHostPath{Path: "/own"},
			})
		}
		c.WorkspaceMountFunc = func(step *engine.Step, base, path, full string) {
			step.Volumes = append(step.Volumes, &engine.VolumeMount{Name: "own", Path: base + "|" + path + "|" + full})
		}
	}
	return c
}

func (in *CompCase) skipped(s *StepM) bool {
	if in.Plain {
		return false
	}
	if in.Skip != nil && in.Data == nil {
		return inList(s.Name, in.Skip)
	}
	if in.Data == nil {
		return false
	}
	skip := false
	s.When.each(func(name string, c *Cond) {
		if v, ok := in.Data[name]; ok && !c.simple(v) {
			skip = true
		}
	})
	return skip
}

// ---- reference: images ----

// refExpand is the full name of an image.
func refExpand(s string) string {
	r, ok := parseRef(s)
	if !ok {
		return s
	}
	out := r.domain + "/" + r.path
	if r.tag != "" {
		out += ":" + r.tag
	}
	if r.digest != "" {
		out += "@" + r.digest
	}
	if r.tag == "" && r.digest == "" {
		out += ":latest"
	}
	return out
}

// refTrim is the short name of an image, without tag.
func refTrim(s string) string {
	r, ok := parseRef(s)
	if !ok {
		return s
	}
	if r.domain == "docker.io" {
		if rest := strings.TrimPrefix(r.path, "library/"); !strings.Contains(rest, "/") {
			return rest
		}
		return r.path
	}
	return r.domain + "/" + r.path
}

// ---- reference: settings ----

// Text is the expected text of an environment variable: a text,
// or json with the same meaning.
type Text struct {
	S    string
	JSON bool
}

// scalarText is the text of a scalar.
func (v Val) scalarText() string {
	switch v.K {
	case "s":
		return v.S
	case "i":
		return strconv.Itoa(v.I)
	case "u":
		return strconv.FormatUint(v.U, 10)
	case "f":
		return strconv.FormatFloat(parseFloat(v.F), 'g', -1, 64)
	case "b":
		return strconv.FormatBool(v.B)
	}
	return ""
}

func (v Val) text() Text {
	switch v.K {
	case "l":
		var out []string
		for _, x := range v.L {
			if x.K == "l" || x.K == "m" {
				return Text{v.json(), true}
			}
			out = append(out, x.scalarText())
		}
		return Text{strings.Join(out, ","), false}
	case "m":
		return Text{v.json(), true}
	}
	return Text{v.scalarText(), false}
}

// json is the canonical json text of a value.
func (v Val) json() string {
	var conv func(v Val) interface{}
	conv = func(v Val) interface{} {
		switch v.K {
		case "l":
			out := []interface{}{}
			for _, x := range v.L {
				out = append(out, conv(x))
			}
			return out
		case "m":
			out := map[string]interface{}{}
			for _, kv := range v.M {
				out[kv.K.scalarText()] = conv(kv.V)
			}
			return out
		case "i":
			return json.Number(strconv.Itoa(v.I))
		case "u":
			return json.Number(strconv.FormatUint(v.U, 10))
		case "f":
			return json.Number(numText(parseFloat(v.F)))
		default:
			return v.goval()
		}
	}
	b, err := json.Marshal(conv(v))
	if err != nil {
		panic("harness: " + err.Error())
	}
	return canonJSON(string(b))
}

func numText(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

// canonJSON is the canonical form of a json text; numbers are
// the same if their values are. It returns the text itself if it
// is no json.
func canonJSON(s string) string {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return "no json: " + s
	}
	if d.More() {
		return "no json: " + s
	}
	var walk func(v interface{}) interface{}
	walk = func(v interface{}) interface{} {
		switch x := v.(type) {
		case json.Number:
			r, ok := new(big.Rat).SetString(x.String())
			if !ok {
				return "number " + x.String()
			}
			return "number " + r.RatString()
		case []interface{}:
			for i := range x {
				x[i] = walk(x[i])
			}
			return x
		case map[string]interface{}:
			for k := range x {
				x[k] = walk(x[k])
			}
			return x
		}
		return v
	}
	b, _ := json.Marshal(walk(v))
	return string(b)
}

// ---- the reference compiler ----

// RStep is what a compiled step is, without identifiers.
type RStep struct {
	Name       string
	Labels     map[string]string
	Detach     bool
	DependsOn  []string
	IgnoreErr  bool
	RunPolicy  string
	Image      string
	Command    []string
	Args       []string
	Script     []string // the commands, in order
	Env        map[string]Text
	Secrets    []string // ENV=name, sorted
	Files      []string // path mode content
	DNS        []string
	DNSSearch  []string
	ExtraHosts []string
	Network    string
	Networks   []string
	Ports      []PortM
	Privileged bool
	Pull       string
	User       string
	Resources  *engine.Resources
	Volumes    []MountM
	WorkingDir string
	Quiet      bool
	Devices    int
}

// RSpec is what a compiled pipeline is, without identifiers.
type RSpec struct {
	Labels  map[string]string
	OS      string
	Arch    string
	Variant string
	Version string
	Steps   []RStep
	Volumes []string
	Auths   []string
	Secrets []string
	Files   []string
}

const scriptMark = "(script)"

func (s *StepM) policy() string {
	onFailure := s.When.Status.simple("failure") && len(s.When.Status.Inc) > 0
	onSuccess := s.When.Status.simple("success")
	switch {
	case onFailure && onSuccess:
		return "always"
	case onFailure:
		return "on-failure"
	case onSuccess:
		return "on-success"
	}
	return "never"
}

func policyText(p engine.RunPolicy) string {
	switch p {
	case engine.RunAlways:
		return "always"
	case engine.RunNever:
		return "never"
	case engine.RunOnFailure:
		return "on-failure"
	case engine.RunOnSuccess:
		return "on-success"
	}
	return fmt.Sprintf("policy %d", p)
}

func pullText(p engine.PullPolicy) string {
	switch p {
	case engine.PullAlways:
		return "always"
	case engine.PullNever:
		return "never"
	case engine.PullIfNotExists:
		return "if-not-exists"
	case engine.PullDefault:
		return "default"
	}
	return fmt.Sprintf("pull %d", p)
}

func (r *ResObj) ref() *engine.ResourceObject {
	if r == nil {
		return nil
	}
	cpu := r.CPU
	if cpu > 0 {
		cpu *= 1000
	}
	return &engine.ResourceObject{CPU: int64(math.Round(cpu)), Memory: r.Memory}
}

func winDrive(s string) string { return "c:" + strings.ReplaceAll(s, "/", `\`) }

// workspace is the reference of the workspace paths.
func (p *PipeM) workspace() (base, dir, full string) {
	base, dir = p.Base, p.Path
	if base == "" {
		base = "/drone/src"
	}
	full = path.Join(base, dir)
	if p.OS == "windows" {
		return winDrive(base), strings.ReplaceAll(dir, "/", `\`), winDrive(full)
	}
	return base, dir, full
}

// settingsEnv adds the environment of the plugin settings.
func (s *StepM) settingsEnv(env map[string]Text, secrets *[]string) {
	list := append([]SetM(nil), s.Settings...)
	sort.Slice(list, func(i, j int) bool { return list[i].K < list[j].K })
	for _, x := range list {
		if x.Null {
			continue
		}
		k := "PLUGIN_" + strings.ToUpper(x.K)
		if x.Secret != "" {
			*secrets = append(*secrets, k+"="+x.Secret)
		} else {
			env[k] = x.V.text()
		}
	}
}

func (in *CompCase) reference() RSpec {
	p := &in.P
	base, dir, full := p.workspace()
	out := RSpec{
		Labels: map[string]string{"io.drone.pipeline.name": p.Name, "io.drone.pipeline.kind": p.Kind, "io.drone.pipeline.type": p.Type},
		OS:     p.OS, Arch: p.Arch, Variant: p.Variant, Version: p.OSVersion,
	}
	own := in.Own && in.Host == "" && !in.Plain
	if own {
		out.Volumes = append(out.Volumes, "own path=/own")
	} else {
		out.Volumes = append(out.Volumes, "workspace temp medium= size=0")
	}
	if in.Host != "" && !in.Plain {
		out.Volumes = append(out.Volumes, "host path="+in.Host)
	}
	for _, v := range p.Volumes {
		switch {
		case v.Null:
		case v.Temp:
			out.Volumes = append(out.Volumes, fmt.Sprintf("%s temp medium=%s size=%d", v.Name, v.Medium, v.Size))
		case v.Host != nil:
			out.Volumes = append(out.Volumes, v.Name+" path="+*v.Host)
		default:
			out.Volumes = append(out.Volumes, v.Name)
		}
	}
	graph := false
	for i := range p.Steps {
		if !p.Steps[i].Null && len(p.Steps[i].DependsOn) > 0 {
			graph = true
		}
	}
	finish := func(r *RStep, s *StepM, build bool) {
		if r.Env == nil {
			r.Env = map[string]Text{}
		}
		for _, pre := range []string{"DRONE_", "CI_"} {
			r.Env[pre+"WORKSPACE"] = Text{S: full}
			r.Env[pre+"WORKSPACE_BASE"] = Text{S: base}
			r.Env[pre+"WORKSPACE_PATH"] = Text{S: dir}
		}
		if own {
			r.Volumes = append(r.Volumes, MountM{Name: "own", Path: base + "|" + dir + "|" + full})
		} else if in.Host != "" && !in.Plain {
			r.Volumes = append(r.Volumes, MountM{Name: "host", Path: full})
			if dir != "" {
				r.Volumes = append(r.Volumes, MountM{Name: "workspace", Path: base})
			}
		} else {
			r.Volumes = append(r.Volumes, MountM{Name: "workspace", Path: base})
		}
		if r.WorkingDir == "" && !(r.Detach && len(s.Commands) == 0) {
			r.WorkingDir = full
		}
	}
	if !p.CloneOff {
		r := RStep{Name: "clone", Labels: map[string]string{"io.drone.step.name": "clone"}, RunPolicy: "on-success", Pull: "if-not-exists", Env: map[string]Text{}}
		img := "drone/git"
		switch {
		case p.OS == "linux" && (p.Arch == "arm" || p.Arch == "arm64"):
			img += ":linux-" + p.Arch
		case p.OS == "windows" && inList(p.OSVersion, []string{"1903", "1803", "1709"}):
			img += ":windows-" + p.OSVersion + "-amd64"
		case p.OS == "windows":
			img += ":windows-1809-amd64"
		}
		r.Image = refExpand(img)
		if p.Depth > 0 {
			r.Env["PLUGIN_DEPTH"] = Text{S: strconv.Itoa(p.Depth)}
		}
		if p.SkipVerify {
			r.Env["GIT_SSL_NO_VERIFY"] = Text{S: "true"}
			r.Env["PLUGIN_SKIP_VERIFY"] = Text{S: "true"}
		}
		if in.Creds != "" && !in.Plain {
			r.Files = append(r.Files, "/root/.git-credentials 0 "+in.Creds)
		}
		finish(&r, &StepM{}, false)
		out.Steps = append(out.Steps, r)
	}
	container := func(s *StepM, service bool) RStep {
		r := RStep{Name: s.Name, Labels: map[string]string{"io.drone.step.name": s.Name}, Detach: s.Detach || service, IgnoreErr: strings.ToLower(s.Failure) == "ignore", RunPolicy: s.policy(), Env: map[string]Text{}}
		if s.Resources != nil {
			r.Resources = &engine.Resources{Limits: s.Resources.Limits.ref(), Requests: s.Resources.Requests.ref()}
		}
		if graph {
			r.DependsOn = append(r.DependsOn, s.DependsOn...)
			if !p.CloneOff && (service || len(s.DependsOn) == 0) {
				r.DependsOn = append(r.DependsOn, "clone")
			}
		} else if service {
			r.DependsOn = append(r.DependsOn, s.DependsOn...)
		}
		if in.skipped(s) {
			r.RunPolicy = "never"
		}
		dind := !in.Plain && in.Dind != nil && dindAllowed(s, in.Dind)
		r.DNS = s.DNS
		if s.Build != nil && !service {
			b := s.Build
			r.Image, r.Args, r.Pull, r.Privileged = "drone/docker", []string{"--build"}, "if-not-exists", dind
			if len(b.CacheFrom) > 0 {
				r.Env["DOCKER_BUILD_CACHE_FROM"] = Text{S: strings.Join(b.CacheFrom, ",")}
			}
			if b.Dockerfile != "" {
				r.Env["DOCKER_BUILD_DOCKERFILE"] = Text{S: b.Dockerfile}
			}
			if b.Context != "" {
				r.Env["DOCKER_BUILD_CONTEXT"] = Text{S: b.Context}
			}
			if b.Image != "" {
				r.Env["DOCKER_BUILD_IMAGE"] = Text{S: refExpand(b.Image)}
				r.Env["DOCKER_BUILD_IMAGE_ALIAS"] = Text{S: refExpand(refTrim(b.Image) + ":" + uidMark(s.Name))}
			}
			r.Volumes = append(r.Volumes, MountM{Name: "_docker_socket", Path: "/var/run/docker.sock"})
			finish(&r, s, true)
			return r
		}
		r.Image = refExpand(s.Image)
		r.Command, r.Args = s.Entrypoint, s.Command
		r.DNSSearch, r.ExtraHosts, r.Network, r.User = s.DNSSearch, s.ExtraHosts, s.Network, s.User
		r.Privileged = s.Privileged || dind
		r.WorkingDir = s.WorkingDir
		r.Pull = "default"
		if l := strings.ToLower(s.Pull); l == "always" || l == "never" || l == "if-not-exists" {
			r.Pull = l
		}
		for _, x := range s.Ports {
			if !x.Null {
				r.Ports = append(r.Ports, x)
			}
		}
		for _, x := range s.Volumes {
			if !x.Null && x.Name != "_docker_socket" {
				r.Volumes = append(r.Volumes, MountM{Name: x.Name, Path: x.Path})
			}
		}
		for _, e := range s.Env {
			switch {
			case e.Null:
			case e.Secret != "":
				r.Secrets = append(r.Secrets, e.K+"="+e.Secret)
			default:
				r.Env[e.K] = Text{S: e.V}
			}
		}
		s.settingsEnv(r.Env, &r.Secrets)
		sort.Strings(r.Secrets)
		if len(s.Commands) > 0 {
			r.Script = s.Commands
			r.Command, r.Args = []string{scriptMark}, nil
			if p.OS == "windows" {
				r.Env["SHELL"] = Text{S: "powershell.exe"}
				delete(r.Env, "CI_SCRIPT")
			}
		}
		finish(&r, s, false)
		return r
	}
	for i := range p.Services {
		if !p.Services[i].Null {
			out.Steps = append(out.Steps, container(&p.Services[i], true))
		}
	}
	builds := 0
	for i := range p.Steps {
		s := &p.Steps[i]
		if !s.Null {
			out.Steps = append(out.Steps, container(s, false))
			if s.Build != nil {
				builds++
			}
		}
	}
	if builds > 0 {
		out.Volumes = append(out.Volumes, "_docker_socket path=/var/run/docker.sock")
	}
	// steps that use an image which the pipeline builds.
	for i := range out.Steps {
		img := out.Steps[i].Image
		for j := range p.Steps {
			b := p.Steps[j].Build
			if !p.Steps[j].Null && b != nil && refExpand(b.Image) == refExpand(img) {
				out.Steps[i].Image = refExpand(refTrim(img) + ":" + uidMark(p.Steps[j].Name))
			}
		}
	}
	sort.Strings(out.Volumes)
	return out
}

// uidMark stands for the identifier of a step: an identifier of
// the same shape that depends on the name.
func uidMark(name string) string {
	return fmt.Sprintf("%032x", hash64([]byte(name)))
}

// observe reads a compiled pipeline. Identifiers are replaced by
// marks. It fails if the specification is not consistent.
func observe(spec *engine.Spec) (RSpec, *V) {
	out := RSpec{Labels: spec.Metadata.Labels, OS: spec.Platform.OS, Arch: spec.Platform.Arch, Variant: spec.Platform.Variant, Version: spec.Platform.Version}
	var pairs []string
	for _, s := range spec.Steps {
		if len(s.Metadata.UID) >= 16 {
			pairs = append(pairs, s.Metadata.UID, uidMark(s.Metadata.Name))
		}
	}
	uids := strings.NewReplacer(pairs...)
	if spec.Docker == nil {
		return out, fail("the specification has no docker configuration")
	}
	for _, v := range spec.Docker.Volumes {
		text := v.Metadata.Name
		if v.EmptyDir != nil {
			text += fmt.Sprintf(" temp medium=%s size=%d", v.EmptyDir.Medium, v.EmptyDir.SizeLimit)
		}
		if v.HostPath != nil {
			text += " path=" + v.HostPath.Path
		}
		out.Volumes = append(out.Volumes, text)
	}
	sort.Strings(out.Volumes)
	for _, a := range spec.Docker.Auths {
		out.Auths = append(out.Auths, fmt.Sprintf("%s %s %s", a.Address, a.Username, a.Password))
	}
	for _, s := range spec.Secrets {
		out.Secrets = append(out.Secrets, s.Metadata.Name+"="+s.Data)
	}
	sort.Strings(out.Secrets)
	for _, s := range spec.Steps {
		if s.Docker == nil {
			return out, fail("step %q has no docker configuration", s.Metadata.Name)
		}
		d := s.Docker
		r := RStep{
			Name: s.Metadata.Name, Labels: s.Metadata.Labels, Detach: s.Detach, DependsOn: s.DependsOn, IgnoreErr: s.IgnoreErr, RunPolicy: policyText(s.RunPolicy),
			Image: uids.Replace(d.Image), Command: d.Command, Args: d.Args, Env: map[string]Text{}, DNS: d.DNS, DNSSearch: d.DNSSearch, ExtraHosts: d.ExtraHosts,
			Network: d.Network, Networks: d.Networks, Privileged: d.Privileged, Pull: pullText(d.PullPolicy), User: d.User, Resources: s.Resources, WorkingDir: s.WorkingDir,
			Quiet: s.IgnoreStderr || s.IgnoreStdout, Devices: len(s.Devices),
		}
		for k, v := range s.Envs {
			if k == "DOCKER_BUILD_IMAGE_ALIAS" {
				v = uids.Replace(v)
			}
			r.Env[k] = Text{S: v}
		}
		for _, x := range s.Secrets {
			r.Secrets = append(r.Secrets, x.Env+"="+x.Name)
		}
		sort.Strings(r.Secrets)
		for _, x := range d.Ports {
			r.Ports = append(r.Ports, PortM{Port: x.Port, Host: x.Host, Proto: x.Protocol})
		}
		for _, x := range s.Volumes {
			r.Volumes = append(r.Volumes, MountM{Name: x.Name, Path: x.Path})
		}
		for _, f := range s.Files {
			file, ok := engine.LookupFile(spec, f.Name)
			if !ok {
				return out, fail("step %q mounts the file %q, which is not defined", s.Metadata.Name, f.Name)
			}
			r.Files = append(r.Files, fmt.Sprintf("%s %o %s", f.Path, f.Mode, file.Data))
		}
		out.Steps = append(out.Steps, r)
	}
	return out, nil
}

// settle removes from an observed step what the reference leaves
// open: the text of the script around the commands, and the
// spelling of json.
func settle(got, want *RStep, win bool) *V {
	for k, w := range want.Env {
		if g, ok := got.Env[k]; ok && w.JSON {
			got.Env[k] = Text{canonJSON(g.S), true}
		}
	}
	if len(want.Script) == 0 {
		return nil
	}
	script := ""
	if win {
		e, ok := got.Env["CI_SCRIPT"]
		if !ok {
			return fail("step %q has no script", got.Name)
		}
		b, err := decodeBase64(e.S)
		if err != nil {
			return fail("step %q has an invalid script: %v", got.Name, err)
		}
		script = string(b)
		delete(got.Env, "CI_SCRIPT")
	} else {
		if len(got.Command) != 1 || !strings.HasSuffix(got.Command[0], "/sh") || len(got.Args) != 1 {
			return fail("step %q runs %q %q, want the shell and the script", got.Name, got.Command, got.Args)
		}
		n := 0
		var rest []string
		for _, f := range got.Files {
			if strings.HasPrefix(f, got.Args[0]+" ") {
				n++
				f = strings.TrimPrefix(f, got.Args[0]+" ")
				i := strings.Index(f, " ")
				mode, _ := strconv.ParseInt(f[:i], 8, 64)
				if mode&0500 != 0500 {
					return fail("step %q: the script has mode %o", got.Name, mode)
				}
				script = f[i+1:]
				continue
			}
			rest = append(rest, f)
		}
		if n != 1 {
			return fail("step %q mounts %d scripts", got.Name, n)
		}
		got.Files = rest
	}
	at := 0
	for _, c := range want.Script {
		i := strings.Index(script[at:], c)
		if i < 0 {
			return fail("step %q: the command %q is not part of the script, or not in its place:\n%s", got.Name, c, script)
		}
		at += i + len(c)
	}
	got.Script, got.Command, got.Args = want.Script, []string{scriptMark}, nil
	return nil
}

// forms are the pipeline as the library holds it: built from the
// model, and parsed from its text.
func (in *CompCase) forms() ([]*yaml.Pipeline, string, *V) {
	forms := []*yaml.Pipeline{in.P.drone()}
	if in.Style == nil {
		return forms, "", nil
	}
	p, text, v := parseOne(&in.P, in.Style)
	if v != nil {
		return nil, text, v
	}
	if p != nil {
		forms = append(forms, p)
	}
	return forms, text, nil
}

// compileWith compiles the case and compares each step with the
// reference, as far as the projection keeps it.
func (in *CompCase) compileWith(c *C, project func(*RSpec)) *V {
	forms, text, v := in.forms()
	if v != nil {
		return v
	}
	for _, p := range forms {
		spec := in.compiler().Compile(p)
		got, v := observe(spec)
		if v != nil {
			return v
		}
		want := in.reference()
		if v := stepNames(&got, &want); v != nil {
			v.Msg += "\n" + text
			return v
		}
		for i := range want.Steps {
			if v := settle(&got.Steps[i], &want.Steps[i], in.P.OS == "windows"); v != nil {
				v.Msg += "\n" + text
				return v
			}
		}
		project(&got)
		project(&want)
		if d := same(got, want); d != "" {
			return fail("%s\n%s", d, text)
		}
	}
	return nil
}

func stepNames(got, want *RSpec) *V {
	g, w := []string{}, []string{}
	for _, s := range got.Steps {
		g = append(g, s.Name)
	}
	for _, s := range want.Steps {
		w = append(w, s.Name)
	}
	if strings.Join(g, "\x00") != strings.Join(w, "\x00") {
		return fail("the steps are %q, want %q", g, w)
	}
	return nil
}

// ---- C13 ----

func checkOrder(c *C, in CompCase) *V {
	dep, cond := 0, 0
	for _, s := range containersOf(&in.P) {
		if len(s.DependsOn) > 0 {
			dep++
		}
		if s.policy() != "on-success" || in.skipped(s) {
			cond++
		}
	}
	c.NonTrivialIf(len(containersOf(&in.P)) > 0)
	c.ClassIf(dep > 0, "graph")
	c.ClassIf(cond > 0, "conditional steps")
	c.ClassIf(in.P.CloneOff, "no clone step")
	c.ClassIf(len(in.P.Services) > 0, "services")
	return in.compileWith(c, func(s *RSpec) {
		*s = RSpec{Steps: s.Steps}
		for i, x := range s.Steps {
			deps := map[string]bool{}
			for _, d := range x.DependsOn {
				deps[d] = true
			}
			s.Steps[i] = RStep{Name: x.Name, Detach: x.Detach, DependsOn: keysOf(deps), IgnoreErr: x.IgnoreErr, RunPolicy: x.RunPolicy}
		}
	})
}

// ---- C14 ----

func checkContent(c *C, in CompCase) *V {
	c.NonTrivialIf(len(containersOf(&in.P)) > 0)
	c.ClassIf(len(containersOf(&in.P)) > 1, "several steps")
	return in.compileWith(c, func(s *RSpec) {
		for i := range s.Steps {
			s.Steps[i].DependsOn, s.Steps[i].RunPolicy, s.Steps[i].IgnoreErr = nil, "", false
		}
	})
}

// ---- C19 ----

func optBuild() opt {
	o := optValid()
	o.img = func(t *rapid.T) string {
		return pick(t, []string{"foo/bar", "foo/bar:1", "foo/bar:2", "golang", "gcr.io/a/b", "gcr.io/a/b:1", "localhost:5000/x", "octocat/hello-world:1.0", "foo/bar:latest", "docker.io/foo/bar", "golang:latest", "library/golang", "bar", "foo/baz"})
	}
	return o
}

func genBuildCase(t *rapid.T) CompCase {
	c := genCompWith(optBuild)(t)
	seen := false
	for i := range c.P.Steps {
		s := &c.P.Steps[i]
		if s.Null {
			continue
		}
		if s.Build == nil && chance(t, 3) {
			s.Build = genBuild(t, optBuild())
		}
		if s.Build != nil {
			seen = true
		}
	}
	buildDomain(&c.P)
	if chance(t, 4) {
		// the socket is for builds only, whoever asks.
		for _, s := range containersOf(&c.P) {
			if chance(t, 2) {
				s.Volumes = append(s.Volumes, MountM{Name: "_docker_socket", Path: pick(t, []string{"/var/run/docker.sock", "/a"})})
			}
		}
	}
	if seen {
		var imgs []string
		for i := range c.P.Steps {
			if b := c.P.Steps[i].Build; b != nil && !c.P.Steps[i].Null {
				imgs = append(imgs, b.Image)
			}
		}
		if len(imgs) > 0 {
			for _, s := range containersOf(&c.P) {
				if s.Build == nil && chance(t, 2) {
					s.Image = respell(t, pick(t, imgs))
				}
			}
		}
	}
	return c
}

func checkBuild(c *C, in CompCase) *V {
	builds, used := map[string]bool{}, 0
	for i := range in.P.Steps {
		if s := &in.P.Steps[i]; !s.Null && s.Build != nil {
			builds[refExpand(s.Build.Image)] = true
		}
	}
	for _, s := range containersOf(&in.P) {
		if s.Build == nil && builds[refExpand(s.Image)] {
			used++
		}
	}
	c.NonTrivialIf(len(builds) > 0)
	c.ClassIf(used > 0, "a built image is used")
	c.ClassIf(len(builds) > 1, "several builds")
	return in.compileWith(c, func(s *RSpec) {
		*s = RSpec{Steps: s.Steps, Volumes: s.Volumes}
		for i, x := range s.Steps {
			r := RStep{Name: x.Name, Image: x.Image, Args: x.Args, Command: x.Command, Files: x.Files, Pull: x.Pull, Secrets: x.Secrets}
			r.Env = map[string]Text{}
			for k, v := range x.Env {
				if strings.HasPrefix(k, "DOCKER_BUILD_") {
					r.Env[k] = v
				}
			}
			for _, m := range x.Volumes {
				if m.Name == "_docker_socket" || strings.HasPrefix(m.Path, "/var/run/docker.sock") {
					r.Volumes = append(r.Volumes, m)
				}
			}
			s.Steps[i] = r
		}
	})
}

// ---- C22 ----

func genWorkspaceCase(t *rapid.T) CompCase {
	c := genCompWith(optValid)(t)
	seg := func(t *rapid.T) string { return pick(t, words) }
	c.P.Base, c.P.Path = "", ""
	if chance(t, 2) {
		c.P.Base = pick(t, []string{"/go", "/drone/src", "/drone", "/", "/a/b/c", "/go/", "/a//b", "/a/../b", "work", "/a:b", "/x:y/z", "/a b"})
		if chance(t, 2) {
			c.P.Base = "/" + seg(t) + "/" + seg(t)
		}
	}
	if chance(t, 2) {
		c.P.Path = pick(t, []string{"src/github.com/octocat/hello-world", "a", "./a", "../a", "a/", "/a", "a//b", "/", ".", "a b", `a\b`})
	}
	if chance(t, 2) {
		c.Host = absPath(t)
		c.Plain = false
	} else {
		c.Host = ""
		c.Own = chance(t, 4)
	}
	return c
}

func checkWorkspace(c *C, in CompCase) *V {
	c.NonTrivialIf(len(containersOf(&in.P)) > 0)
	c.ClassIf(in.P.OS == "windows", "windows")
	c.ClassIf(in.Host != "", "host workspace")
	c.ClassIf(in.Own, "workspace functions of the caller")
	c.ClassIf(in.P.Base != "" && in.P.Path != "", "base and path")
	return in.compileWith(c, func(s *RSpec) {
		*s = RSpec{Steps: s.Steps, Volumes: s.Volumes}
		var vols []string
		for _, v := range s.Volumes {
			if strings.HasPrefix(v, "workspace ") || strings.HasPrefix(v, "host ") || strings.HasPrefix(v, "own ") {
				vols = append(vols, v)
			}
		}
		s.Volumes = vols
		for i, x := range s.Steps {
			r := RStep{Name: x.Name, WorkingDir: x.WorkingDir, Env: map[string]Text{}}
			for k, v := range x.Env {
				if strings.Contains(k, "WORKSPACE") {
					r.Env[k] = v
				}
			}
			for _, m := range x.Volumes {
				if m.Name == "workspace" || m.Name == "host" || m.Name == "own" {
					r.Volumes = append(r.Volumes, m)
				}
			}
			s.Steps[i] = r
		}
	})
}

func init() {
	register(&Prop{ID: "C13", Title: "the compiled steps run in the order the pipeline states",
		Subs: []Sub{
			sub("order", "valid pipelines, parsed from yaml or built in memory, with random conditions, skip functions and options; order, dependencies and run policy of the compiled steps are compared with the reference compiler; non-trivial: has containers", 32000, 300000, genCompWith(optValid), checkOrder).shards(8),
		}})
	register(&Prop{ID: "C14", Title: "a compiled step is what the pipeline says",
		Subs: []Sub{
			sub("content", "valid pipelines, parsed from yaml or built in memory, with random options; all attributes of the compiled steps are compared with the reference compiler; non-trivial: has containers", 32000, 300000, genCompWith(optValid), checkContent).shards(8),
		}})
	register(&Prop{ID: "C19", Title: "image builds use the docker socket and nothing else does",
		Subs: []Sub{
			sub("builds", "valid pipelines with build steps and steps that use the built images in other spellings; images, aliases, build environment and socket mounts are compared with the reference compiler; non-trivial: has a build step", 32000, 300000, genBuildCase, checkBuild).shards(8),
		}})
	register(&Prop{ID: "C22", Title: "steps see the workspace where the pipeline puts it",
		Subs: []Sub{
			sub("workspace", "valid pipelines with workspaces of both platforms, temporary, host and by functions of the caller; workspace volumes, mounts, environment and working directories are compared with the reference compiler; non-trivial: has containers", 32000, 300000, genWorkspaceCase, checkWorkspace).shards(8),
		}})
}
