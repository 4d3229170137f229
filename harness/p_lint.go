package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/linter"
	"pgregory.net/rapid"
)

// ---- the reference linter ----

var reservedVolumes = map[string]bool{"workspace": true, "_workspace": true, "_docker_socket": true}

// trustFaults are the features that need a trusted repository.
func trustFaults(p *PipeM) []string {
	f := map[string]bool{}
	for _, steps := range [][]StepM{p.Steps, p.Services} {
		for i := range steps {
			s := &steps[i]
			if s.Null {
				continue
			}
			if s.Privileged {
				f["privileged"] = true
			}
			if len(s.Devices) > 0 {
				f["devices"] = true
			}
			if len(s.DNS) > 0 {
				f["dns"] = true
			}
			if len(s.DNSSearch) > 0 {
				f["dns_search"] = true
			}
			if len(s.ExtraHosts) > 0 {
				f["extra_hosts"] = true
			}
			if s.Network != "" {
				f["network_mode"] = true
			}
			for _, p := range s.Ports {
				if !p.Null && p.Host != 0 {
					f["host port"] = true
				}
			}
		}
	}
	for _, v := range p.Volumes {
		if v.Null {
			continue
		}
		if v.Host != nil {
			f["host volume"] = true
		}
		if v.Temp && v.Medium == "memory" {
			f["memory volume"] = true
		}
	}
	return keysOf(f)
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var okOS = map[string]bool{"": true, "linux": true, "windows": true}
var okArch = map[string]bool{"": true, "arm": true, "arm64": true, "amd64": true, "ppc64le": true, "s390x": true}

// structFaults are the faults that no repository may have.
func structFaults(p *PipeM) []string {
	f := map[string]bool{}
	if !okOS[p.OS] {
		f["os"] = true
	}
	if !okArch[p.Arch] {
		f["arch"] = true
	}
	for _, v := range p.Volumes {
		if !v.Null && reservedVolumes[v.Name] {
			f["volume name"] = true
		}
	}
	names := map[string]bool{}
	if !p.CloneOff {
		names["clone"] = true
	}
	container := func(s *StepM) {
		if names[s.Name] {
			f["duplicate"] = true
		}
		names[s.Name] = true
		if s.Name == "" {
			f["name"] = true
		}
		if s.Build == nil && s.Image == "" {
			f["image"] = true
		}
		if s.Build != nil && s.Build.Image == "" {
			f["build image"] = true
		}
		for _, m := range s.Volumes {
			if !m.Null && reservedVolumes[m.Name] {
				f["mount name"] = true
			}
		}
	}
	for i := range p.Steps {
		s := &p.Steps[i]
		if s.Null {
			continue
		}
		container(s)
		for _, d := range s.DependsOn {
			switch {
			case d == s.Name:
				f["self dependency"] = true
			case !names[d]:
				f["dependency"] = true
			}
		}
	}
	for i := range p.Services {
		if !p.Services[i].Null {
			container(&p.Services[i])
		}
	}
	return keysOf(f)
}

// typedErrors are the errors that callers compare with.
var typedErrors = map[string]error{
	"duplicate":       linter.ErrDuplicateStepName,
	"dependency":      linter.ErrMissingDependency,
	"self dependency": linter.ErrCyclicalDependency,
}

// lintSame compares the linter with the faults of the reference.
func lintSame(what string, err error, faults []string) *V {
	if (err != nil) != (len(faults) > 0) {
		return fail("%s: the linter returns %v, want faults %v", what, err, faults)
	}
	if len(faults) == 1 {
		if want := typedErrors[faults[0]]; want != nil && err != want {
			return fail("%s: the linter returns %q, want %q", what, err, want)
		}
	}
	for k, e := range typedErrors {
		if err == e && !inList(k, faults) {
			return fail("%s: the linter returns %q, and the faults are %v", what, err, faults)
		}
	}
	return nil
}

// ---- faults to inject ----

// injection is a change to a pipeline; the index selects the
// container or volume.
type injection struct {
	Kind string `json:"kind"`
	At   int    `json:"at,omitempty"`
	S    string `json:"s,omitempty"`
	N    int    `json:"n,omitempty"`
}

func containersOf(p *PipeM) []*StepM {
	var out []*StepM
	for i := range p.Steps {
		if !p.Steps[i].Null {
			out = append(out, &p.Steps[i])
		}
	}
	for i := range p.Services {
		if !p.Services[i].Null {
			out = append(out, &p.Services[i])
		}
	}
	return out
}

var trustKinds = []string{"privileged", "devices", "dns", "dns_search", "extra_hosts", "network_mode", "host port", "host volume", "memory volume", "host of a temp volume"}
var structKinds = []string{"os", "arch", "volume name", "duplicate", "clone name", "name", "image", "build image", "mount name", "self dependency", "dependency", "later dependency", "service dependency", "dependency twice", "dependency on clone"}

func genInjection(t *rapid.T, kinds []string) injection {
	in := injection{Kind: pick(t, kinds), At: num(t, 0, 7), N: num(t, 1, 65535)}
	switch in.Kind {
	case "os":
		in.S = pick(t, []string{"darwin", "Linux", "solaris", "win", "freebsd", "linux ", "LINUX", "windows10"})
	case "arch":
		in.S = pick(t, []string{"386", "AMD64", "x86_64", "mips", "arm6", "armv7", "aarch64", "ppc64", "riscv64"})
	case "volume name", "mount name":
		in.S = pick(t, []string{"workspace", "_workspace", "_docker_socket"})
	case "network_mode":
		in.S = pick(t, []string{"host", "none", "bridge", "container:x", "my-net", "default"})
	case "host volume", "host of a temp volume":
		in.S = pick(t, []string{"", "/", "/etc", "/var/run/docker.sock", "relative"})
	case "dependency":
		in.S = pick(t, []string{"nope", "Clone", "", "clone ", "build2"})
	case "host port":
		if chance(t, 4) {
			in.N = pick(t, []int{-1, -80, 65536, 1 << 40, 1 << 32})
		}
	default:
		in.S = pick(t, []string{"a", "8.8.8.8", "example.com", "", " "})
	}
	return in
}

func (in injection) apply(p *PipeM) {
	cs := containersOf(p)
	var c *StepM
	if len(cs) > 0 {
		c = cs[in.At%len(cs)]
	}
	var steps []*StepM
	for i := range p.Steps {
		if !p.Steps[i].Null {
			steps = append(steps, &p.Steps[i])
		}
	}
	vol := func() *VolM {
		var vs []*VolM
		for i := range p.Volumes {
			if !p.Volumes[i].Null {
				vs = append(vs, &p.Volumes[i])
			}
		}
		if len(vs) == 0 {
			p.Volumes = append(p.Volumes, VolM{Name: "injected", Temp: true})
			return &p.Volumes[len(p.Volumes)-1]
		}
		return vs[in.At%len(vs)]
	}
	switch in.Kind {
	case "host volume":
		s := in.S
		p.Volumes = append(p.Volumes, VolM{Name: "injected", Host: &s})
		return
	case "host of a temp volume":
		s := in.S
		v := vol()
		v.Temp, v.Host = true, &s
		return
	case "memory volume":
		v := vol()
		v.Temp, v.Medium = true, "memory"
		return
	case "volume name":
		vol().Name = in.S
		return
	case "os":
		p.OS = in.S
		return
	case "arch":
		p.Arch = in.S
		return
	}
	if c == nil {
		return
	}
	switch in.Kind {
	case "privileged":
		c.Privileged = true
	case "devices":
		c.Devices = append(c.Devices, MountM{Name: in.S, Path: "/dev/x"})
	case "dns":
		c.DNS = append(c.DNS, in.S)
	case "dns_search":
		c.DNSSearch = append(c.DNSSearch, in.S)
	case "extra_hosts":
		c.ExtraHosts = append(c.ExtraHosts, in.S)
	case "network_mode":
		c.Network = in.S
	case "host port":
		at := 0
		if len(c.Ports) > 0 {
			at = in.At % (len(c.Ports) + 1)
		}
		ports := append([]PortM{}, c.Ports[:at]...)
		ports = append(ports, PortM{Port: 80, Host: in.N})
		c.Ports = append(ports, c.Ports[at:]...)
	case "mount name":
		c.Volumes = append(c.Volumes, MountM{Name: in.S, Path: "/x"})
	case "duplicate":
		if len(cs) > 1 {
			c.Name = cs[(in.At+1)%len(cs)].Name
		}
	case "clone name":
		c.Name = "clone"
	case "name":
		c.Name = ""
	case "image":
		c.Image, c.Build = "", nil
	case "build image":
		c.Build = &BuildM{}
	case "service dependency":
		for i := range p.Services {
			p.Services[i].DependsOn = append(p.Services[i].DependsOn, "nope")
		}
	}
	if len(steps) == 0 {
		return
	}
	s := steps[in.At%len(steps)]
	switch in.Kind {
	case "self dependency":
		s.DependsOn = append(s.DependsOn, s.Name)
	case "dependency":
		s.DependsOn = append([]string{in.S}, s.DependsOn...)
	case "later dependency":
		s.DependsOn = append(s.DependsOn, steps[len(steps)-1].Name)
	case "dependency twice":
		s.DependsOn = append(s.DependsOn, s.DependsOn...)
	case "dependency on clone":
		s.DependsOn = append(s.DependsOn, "clone")
	}
}

// LintCase is a pipeline and what is injected into it.
type LintCase struct {
	P      PipeM       `json:"p"`
	Inject []injection `json:"inject,omitempty"`
	Style  []int       `json:"style,omitempty"`
}

func optClean() opt {
	o := optValid()
	o.trust = false
	o.nulls = true
	return o
}

func genLint(kinds []string, o func() opt) func(*rapid.T) LintCase {
	return func(t *rapid.T) LintCase {
		c := LintCase{P: genPipe(t, o()), Inject: listOf(t, 0, 2, func(t *rapid.T) injection { return genInjection(t, kinds) })}
		for _, i := range c.Inject {
			i.apply(&c.P)
		}
		c.Style = genStyle(t)
		return c
	}
}

// parseOne emits the pipeline and parses it.
func parseOne(p *PipeM, style []int) (*yaml.Pipeline, string, *V) {
	m := ManifestM{R: []ResourceM{{Pipe: p}}}
	text, nodes := m.emit(style, nil)
	out, err := yaml.ParseString(text)
	if err != nil {
		if !agrees(text, nodes) {
			return nil, text, nil
		}
		return nil, text, fail("rejected: %v\n%s", err, text)
	}
	pipe, ok := out.Resources[0].(*yaml.Pipeline)
	if !ok || len(out.Resources) != 1 {
		return nil, text, fail("parsed as %T\n%s", out.Resources[0], text)
	}
	return pipe, text, nil
}

func checkLint(c *C, in LintCase) *V {
	sf, tf := structFaults(&in.P), trustFaults(&in.P)
	c.NonTrivialIf(len(containersOf(&in.P)) > 0)
	for _, f := range append(append([]string{}, sf...), tf...) {
		c.Class("fault: " + f)
	}
	c.ClassIf(len(sf)+len(tf) == 0, "accepted")
	all := append(append([]string{}, sf...), tf...)
	pipe, text, v := parseOne(&in.P, in.Style)
	if v != nil {
		return v
	}
	forms := []*yaml.Pipeline{in.P.drone()}
	if pipe != nil {
		forms = append(forms, pipe)
	}
	for i, p := range forms {
		what := "model"
		if i == 1 {
			what = "parsed"
		}
		if v := lintSame(what+", trusted", linter.Lint(p, true), sf); v != nil {
			v.Msg += "\n" + text
			return v
		}
		if v := lintSame(what+", untrusted", linter.Lint(p, false), all); v != nil {
			v.Msg += "\n" + text
			return v
		}
		// the linter does not change what it reads.
		if s := same(p, in.P.drone()); s != "" {
			return fail("the linter changes the pipeline: %s", s)
		}
	}
	return nil
}

// ---- monotone on any pipeline ----

func checkMonotone(c *C, p PipeM) *V {
	d := p.drone()
	tr, un := linter.Lint(d, true), linter.Lint(d, false)
	c.NonTrivialIf(len(containersOf(&p)) > 0)
	if un == nil && tr != nil {
		return fail("accepted for an untrusted repository and rejected for a trusted one: %v", tr)
	}
	sf, tf := structFaults(&p), trustFaults(&p)
	if v := lintSame("trusted", tr, sf); v != nil {
		return v
	}
	return lintSame("untrusted", un, append(sf, tf...))
}

// ---- manifests and other resources ----

func genLintManifest(t *rapid.T) ManifestM {
	var m ManifestM
	names := []string{}
	for i, n := 0, num(t, 1, 5); i < n; i++ {
		if chance(t, 4) {
			r := genResource(t, optText())
			if r.Pipe == nil {
				m.R = append(m.R, r)
				continue
			}
		}
		p := PipeM{Kind: "pipeline", Name: pick(t, []string{"a", "b", "c", "d", "e", "f", "g", "h", ""})}
		switch {
		case len(names) > 0 && chance(t, 6):
			p.Name = nearText(t, pick(t, names))
		case !chance(t, 5):
			p.Name = fmt.Sprintf("p%d", i)
		case len(names) > 0:
			p.Name = pick(t, names)
		}
		if len(names) > 0 && chance(t, 2) {
			p.DependsOn = listOf(t, 1, 2, func(t *rapid.T) string {
				if chance(t, 8) {
					return pick(t, []string{"nope", "p4", p.Name, ""})
				}
				return pick(t, names)
			})
		}
		if chance(t, 3) {
			p.OS, p.Arch = pick(t, []string{"linux", "windows", "darwin", ""}), pick(t, []string{"", "amd64", "arm", "386"})
		}
		p.Type = pick(t, []string{"", "docker", "exec", "kubernetes", "ssh"})
		if chance(t, 6) {
			p.Kind = pick(t, []string{"", "other", "Pipeline", "job"})
		}
		names = append(names, p.Name)
		m.R = append(m.R, ResourceM{Pipe: &p})
	}
	return m
}

func checkManifestLint(c *C, m ManifestM) *V {
	f := map[string]bool{}
	names := map[string]bool{}
	for _, p := range m.pipes() {
		if names[p.Name] {
			f["duplicate"] = true
		}
		names[p.Name] = true
		for _, d := range p.DependsOn {
			switch {
			case d == p.Name:
				f["self"] = true
			case !names[d]:
				f["missing"] = true
			}
		}
		if (p.Type == "" || p.Type == "docker") && (p.Kind == "" || p.Kind == "pipeline") && (!okOS[p.OS] || !okArch[p.Arch]) {
			f["platform"] = true
		}
	}
	faults := keysOf(f)
	c.NonTrivialIf(len(m.pipes()) > 1)
	for _, x := range faults {
		c.Class("fault: " + x)
	}
	c.ClassIf(len(faults) == 0, "accepted")
	typed := map[string]error{"duplicate": linter.ErrDuplicatePipelineName, "self": linter.ErrPipelineSelfDependency, "missing": linter.ErrMissingPipelineDependency}
	for _, trusted := range []bool{true, false} {
		err := linter.Manifest(m.drone(), trusted)
		if (err != nil) != (len(faults) > 0) {
			return fail("Manifest returns %v, want faults %v", err, faults)
		}
		for k, e := range typed {
			if len(faults) == 1 && faults[0] == k && err != e {
				return fail("Manifest returns %q, want %q", err, e)
			}
			if err == e && !f[k] {
				return fail("Manifest returns %q, and the faults are %v", err, faults)
			}
		}
	}
	return nil
}

func checkResourceLint(c *C, r ResourceM) *V {
	c.NonTrivial()
	bad := false
	switch {
	case r.Pipe != nil:
		return c.Discard("pipeline")
	case r.Cron != nil:
		bad = r.Cron.Branch == ""
	case r.Sec != nil:
		bad = r.Sec.Data == "" && r.Sec.GetPath == "" && r.Sec.GetName == ""
	case r.Reg != nil:
		bad = len(r.Reg.Data) == 0
	case r.Sig != nil:
		bad = r.Sig.Hmac == ""
	}
	c.ClassIf(bad, "invalid")
	for _, trusted := range []bool{true, false} {
		if err := linter.Lint(r.drone(), trusted); (err != nil) != bad {
			return fail("Lint returns %v, want an error: %v", err, bad)
		}
	}
	return nil
}

// ---- C08: what an untrusted repository can reach ----

// AttackCase is a manifest of an untrusted repository.
type AttackCase struct {
	P     PipeM    `json:"p"`
	Dind  []string `json:"dind,omitempty"`
	Style []int    `json:"style,omitempty"`
}

func genAttack(t *rapid.T) AttackCase {
	o := optClean()
	o.text = func(t *rapid.T) string {
		if chance(t, 3) {
			return pick(t, []string{"workspace", "_workspace", "_docker_socket", "host", "clone", "data", "Workspace", "memory", "/var/run/docker.sock", "drone/docker", "true"})
		}
		return pick(t, words)
	}
	o.img = func(t *rapid.T) string {
		if chance(t, 2) {
			return pick(t, []string{"plugins/docker", "plugins/docker:17", "docker.io/plugins/docker:latest", "index.docker.io/plugins/docker", "plugins/ecr", "drone/docker", "drone/docker:latest", "docker", "plugins/docker@sha256:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef", "gcr.io/plugins/docker", "plugins/docker-evil", "evil/plugins/docker", "Plugins/docker", "quay.io/plugins/ecr"})
		}
		return goodImage(t)
	}
	c := AttackCase{P: genPipe(t, o)}
	// volumes of any kind that may slip through.
	mountNames := []string{"workspace", "_workspace", "_docker_socket", "host", "data", ""}
	for i := range c.P.Volumes {
		if chance(t, 6) {
			c.P.Volumes[i].Name = pick(t, mountNames)
		}
		mountNames = append(mountNames, c.P.Volumes[i].Name)
	}
	for _, s := range containersOf(&c.P) {
		if chance(t, 6) {
			s.Volumes = append(s.Volumes, MountM{Name: pick(t, mountNames), Path: absPath(t)})
		}
	}
	for i, n := 0, num(t, 0, 5); i < n-3; i++ {
		genInjection(t, trustKinds).apply(&c.P)
	}
	c.Dind = pick(t, [][]string{{"plugins/docker"}, {"plugins/docker", "plugins/ecr"}, {"plugins/docker:17"}, nil, {"docker.io/plugins/ecr"}})
	c.Style = genStyle(t)
	return c
}

// dindAllowed is the reference of the privileged images, for the
// images in use here: same repository, any tag, no commands.
func dindAllowed(s *StepM, list []string) bool {
	if len(s.Commands)+len(s.Command)+len(s.Entrypoint) > 0 {
		return false
	}
	for _, x := range list {
		if refTrim(x) == refTrim(s.Image) {
			return true
		}
	}
	return false
}

func checkAttack(c *C, in AttackCase) *V {
	pipe, text, v := parseOne(&in.P, in.Style)
	if v != nil {
		return v
	}
	if pipe == nil {
		return c.Discard("the emitter is not certain")
	}
	err := linter.Lint(pipe, false)
	comp := &compiler.Compiler{PrivilegedFunc: compiler.DindFunc(in.Dind)}
	spec := comp.Compile(pipe)
	// the socket is out of reach, even if the linter is not
	// used.
	if v := socketContained(spec, &in.P, err == nil); v != nil {
		v.Msg += "\n" + text
		return v
	}
	if err != nil {
		c.Class("rejected by the linter")
		return nil
	}
	c.NonTrivialIf(len(containersOf(&in.P)) > 0)
	allowed := map[string]bool{}
	for _, s := range containersOf(&in.P) {
		if dindAllowed(s, in.Dind) {
			allowed[s.Name] = true
		}
	}
	bad := func(format string, args ...interface{}) *V {
		return fail("accepted for an untrusted repository, and %s\n%s", fmt.Sprintf(format, args...), text)
	}
	for _, vol := range spec.Docker.Volumes {
		if vol.HostPath != nil && !(vol.Metadata.Name == "_docker_socket" && vol.HostPath.Path == "/var/run/docker.sock") {
			return bad("volume %q mounts the host path %q", vol.Metadata.Name, vol.HostPath.Path)
		}
		if vol.EmptyDir != nil && vol.EmptyDir.Medium == "memory" {
			return bad("volume %q is in memory", vol.Metadata.Name)
		}
	}
	for _, s := range spec.Steps {
		if s.Docker.Privileged {
			c.Class("privileged plugin")
			if !allowed[s.Metadata.Name] {
				return bad("step %q is privileged", s.Metadata.Name)
			}
		}
		if len(s.Devices) > 0 || len(s.Docker.DNS) > 0 || len(s.Docker.DNSSearch) > 0 || len(s.Docker.ExtraHosts) > 0 || s.Docker.Network != "" || len(s.Docker.Networks) > 0 {
			return bad("step %q has devices %v, dns %v %v, extra hosts %v, network %q %v", s.Metadata.Name, s.Devices, s.Docker.DNS, s.Docker.DNSSearch, s.Docker.ExtraHosts, s.Docker.Network, s.Docker.Networks)
		}
		for _, p := range s.Docker.Ports {
			if p.Host != 0 {
				return bad("step %q binds the host port %d", s.Metadata.Name, p.Host)
			}
		}
	}
	return nil
}

// socketContained: the docker socket is mounted by build steps
// only, which run no user command.
func socketContained(spec *engine.Spec, p *PipeM, linted bool) *V {
	builds := map[string]bool{}
	n := 0
	for i := range p.Steps {
		if !p.Steps[i].Null && p.Steps[i].Build != nil {
			builds[p.Steps[i].Name] = true
			n++
		}
	}
	hostSocket := map[string]bool{"_docker_socket": true}
	count := 0
	for _, v := range spec.Docker.Volumes {
		if v.Metadata.Name == "_docker_socket" && v.HostPath != nil {
			count++
		}
	}
	if linted {
		want := 0
		if n > 0 {
			want = 1
		}
		if count != want {
			return fail("%d build steps, and the docker socket is declared %d times", n, count)
		}
	}
	for _, s := range spec.Steps {
		for _, m := range s.Volumes {
			if !hostSocket[m.Name] {
				continue
			}
			if !builds[s.Metadata.Name] {
				return fail("step %q mounts the docker socket and is no build step", s.Metadata.Name)
			}
			if len(s.Docker.Command) > 0 || strings.Join(s.Docker.Args, " ") != "--build" || len(s.Files) > 0 {
				return fail("step %q mounts the docker socket and runs %q %q", s.Metadata.Name, s.Docker.Command, s.Docker.Args)
			}
		}
	}
	return nil
}

// refRepo is the repository of an image reference: registry and
// path, without tag and digest ("" if the reference is invalid).
func refRepo(s string) string {
	r, ok := parseRef(s)
	if !ok {
		return ""
	}
	return r.domain + "/" + r.path
}

func init() {
	register(&Prop{ID: "C06", Title: "an untrusted repository cannot use privileged features",
		Subs: []Sub{
			sub("inject", "valid pipelines with none, one or several trusted-only features injected, written as yaml in random style and linted for a trusted and an untrusted repository; the reference lists the features; non-trivial: has containers", 4000, 160000, genLint(trustKinds, optClean), checkLint).shards(4),
			sub("any", "arbitrary pipelines: the verdict is that of the reference, and is never stricter for a trusted repository; non-trivial: has containers", 4000, 160000, func(t *rapid.T) PipeM { return genPipe(t, optText()) }, checkMonotone).shards(4),
		}})
	register(&Prop{ID: "C07", Title: "the linter accepts exactly the well-formed pipelines",
		Subs: []Sub{
			sub("inject", "valid pipelines with structural faults injected (names, images, dependencies, platform, reserved volumes), written as yaml; the reference lists the faults; non-trivial: has containers", 5000, 160000, genLint(structKinds, optValid), checkLint).shards(4),
			sub("manifest", "manifests of pipelines with names, dependencies and platforms; non-trivial: several pipelines", 4000, 160000, genLintManifest, checkManifestLint).shards(2),
			sub("resource", "crons, secrets, registries and signatures; non-trivial: not a pipeline", 2000, 40000, func(t *rapid.T) ResourceM { return genResource(t, optText()) }, checkResourceLint),
		}})
	register(&Prop{ID: "C08", Title: "what lint accepts for an untrusted repository stays contained",
		Assumptions: []string{"the runtime grants a step only what the compiled specification says"},
		Subs: []Sub{
			sub("contained", "pipelines built to evade the linter (reserved names, plugin images, null entries, injected features), parsed, linted as untrusted, and compiled with a plugin whitelist; non-trivial: accepted and has containers", 6000, 240000, genAttack, checkAttack).shards(4),
		}})
}
