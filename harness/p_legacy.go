package main

import (
	"fmt"
	"os"
	"path"
	"sort"
	"strings"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/converter/legacy"
	"github.com/drone/drone-yaml/yaml/converter/legacy/matrix"
	"github.com/drone/drone-yaml/yaml/linter"
	"pgregory.net/rapid"
)

// The model of a configuration in the legacy format (0.8).

// LegacyM is a legacy configuration.
type LegacyM struct {
	Base     string       `json:"base,omitempty"`
	Path     string       `json:"path,omitempty"`
	Clone    []LegacyC    `json:"clone,omitempty"`
	Pipeline []LegacyC    `json:"pipeline,omitempty"`
	Services []LegacyC    `json:"services,omitempty"`
	Branches Cond         `json:"branches,omitempty"`
	Matrix   MatrixM      `json:"matrix,omitempty"`
	Secrets  []LegacySecM `json:"secrets,omitempty"`
	Shared   *LegacyC     `json:"shared,omitempty"` // used by merge keys
}

// LegacyC is a container of a legacy configuration.
type LegacyC struct {
	Name       string       `json:"name"`
	Image      string       `json:"image,omitempty"`
	Detach     bool         `json:"detach,omitempty"`
	Privileged bool         `json:"privileged,omitempty"`
	Pull       bool         `json:"pull,omitempty"`
	Command    []string     `json:"command,omitempty"`
	Commands   []string     `json:"commands,omitempty"`
	Entrypoint []string     `json:"entrypoint,omitempty"`
	DNS        []string     `json:"dns,omitempty"`
	DNSSearch  []string     `json:"dns_search,omitempty"`
	ExtraHosts []string     `json:"extra_hosts,omitempty"`
	Env        []KV         `json:"env,omitempty"`
	EnvList    bool         `json:"env_list,omitempty"`
	Volumes    []LegacyVolM `json:"volumes,omitempty"`
	Secrets    []KV         `json:"secrets,omitempty"` // source, target
	SecretObj  bool         `json:"secret_obj,omitempty"`
	Vargs      []SetM       `json:"vargs,omitempty"`
	When       When         `json:"when,omitempty"` // target is environment
	Merge      bool         `json:"merge,omitempty"`
}

type LegacyVolM struct {
	Source string `json:"source"`
	Dest   string `json:"dest"`
	Mode   string `json:"mode,omitempty"`
}

// LegacySecM is an entry of the secrets section.
type LegacySecM struct {
	Name   string `json:"name"`
	Driver string `json:"driver,omitempty"` // with Path and Key
	Path   string `json:"path,omitempty"`
	Key    string `json:"key,omitempty"`
	Vault  bool   `json:"vault,omitempty"` // Path is given as vault
}

// MatrixM is a matrix: axes, or a list of combinations.
type MatrixM struct {
	Axes    []AxisM `json:"axes,omitempty"`
	Include [][]KV  `json:"include,omitempty"`
}

type AxisM struct {
	K string   `json:"k"`
	V []string `json:"v"`
}

// ---- to yaml ----

// one is a list that may be written as a string.
func (n *Node) one(k string, v []string) *Node {
	if len(v) == 1 && noNull(v[0]) == v[0] {
		return n.add(k, nAlt(nStrs(v), nStr(v[0])))
	}
	return n.strs(k, v)
}

func (w When) legacyNode() *Node {
	m := nMap()
	n := 0
	for _, x := range []struct {
		k string
		c Cond
	}{{"branch", w.Branch}, {"environment", w.Target}, {"event", w.Event}, {"instance", w.Instance}, {"ref", w.Ref}, {"repo", w.Repo}, {"status", w.Status}} {
		m.add(x.k, x.c.node())
		n += len(x.c.Inc) + len(x.c.Exc)
	}
	m.kvs("matrix", w.Matrix)
	if n+len(w.Matrix) == 0 {
		return nZero(m)
	}
	return m
}

func (c LegacyC) node() *Node {
	m := nMap()
	m.str("image", c.Image)
	m.one("command", c.Command).one("commands", c.Commands).one("entrypoint", c.Entrypoint)
	m.boolean("detach", c.Detach).boolean("privileged", c.Privileged).boolean("pull", c.Pull)
	m.one("dns", c.DNS).one("dns_search", c.DNSSearch).strs("extra_hosts", c.ExtraHosts)
	switch {
	case len(c.Env) == 0:
	case c.EnvList:
		l := nList()
		for _, kv := range c.Env {
			l.Items = append(l.Items, nStr(kv.K+"="+kv.V))
		}
		m.add("environment", l)
	default:
		m.kvs("environment", c.Env)
	}
	if len(c.Volumes) > 0 {
		l := nList()
		for _, v := range c.Volumes {
			s := v.Source + ":" + v.Dest
			if v.Mode != "" {
				s += ":" + v.Mode
			}
			l.Items = append(l.Items, nStr(s))
		}
		m.add("volumes", l)
	}
	if len(c.Secrets) > 0 {
		l, o := nList(), nList()
		short := true
		for _, kv := range c.Secrets {
			l.Items = append(l.Items, nStr(kv.K))
			o.Items = append(o.Items, nMap().str("source", kv.K).str("target", kv.V))
			short = short && kv.K == kv.V
		}
		switch {
		case !short || c.SecretObj:
			m.add("secrets", o)
		default:
			m.add("secrets", nAlt(l, o))
		}
	}
	for _, x := range c.Vargs {
		m.add(x.K, x.V.node())
	}
	return m.add("when", c.When.legacyNode())
}

func (x MatrixM) node() *Node {
	m := nMap()
	if len(x.Include) > 0 {
		l := nList()
		for _, kvs := range x.Include {
			e := nMap()
			for _, kv := range kvs {
				e.add(kv.K, nStr(kv.V))
			}
			l.Items = append(l.Items, e)
		}
		m.add("include", l)
	}
	for _, a := range x.Axes {
		m.add(a.K, nStrs(a.V))
	}
	return m
}

// strip removes the zero values.
func (n *Node) strip() *Node {
	out := nMap()
	for i, x := range n.Items {
		if x.Kind != "zero" {
			out.Keys, out.Items = append(out.Keys, n.Keys[i]), append(out.Items, x)
		}
	}
	return out
}

// merged is the container with the values of the shared one.
func (c LegacyC) merged(b *LegacyC) LegacyC {
	if b == nil || !c.Merge {
		return c
	}
	if c.Image == "" {
		c.Image = b.Image
	}
	if len(c.Commands) == 0 {
		c.Commands = b.Commands
	}
	if len(c.Env) == 0 {
		c.Env, c.EnvList = b.Env, b.EnvList
	}
	if len(c.Volumes) == 0 {
		c.Volumes = b.Volumes
	}
	if len(c.Secrets) == 0 {
		c.Secrets, c.SecretObj = b.Secrets, b.SecretObj
	}
	c.Pull = c.Pull || b.Pull
	if c.When.empty() {
		c.When = b.When
	}
	c.Vargs = append([]SetM(nil), c.Vargs...)
next:
	for _, x := range b.Vargs {
		for _, y := range c.Vargs {
			if x.K == y.K {
				continue next
			}
		}
		c.Vargs = append(c.Vargs, x)
	}
	return c
}

func (w When) empty() bool {
	n := len(w.Matrix)
	w.each(func(_ string, c *Cond) { n += len(c.Inc) + len(c.Exc) })
	return n == 0
}

func (m LegacyM) resolved() LegacyM {
	f := func(in []LegacyC) (out []LegacyC) {
		for _, c := range in {
			out = append(out, c.merged(m.Shared))
		}
		return
	}
	m.Clone, m.Pipeline, m.Services = f(m.Clone), f(m.Pipeline), f(m.Services)
	return m
}

func (m LegacyM) node() *Node {
	n := nMap()
	var shared *Node
	if m.Shared != nil {
		shared = m.Shared.node().strip()
		shared.Anchor = "shared"
		n.add("shared", shared)
		n.Ordered = true
		n.NoMerge = true
	}
	if m.Base != "" || m.Path != "" {
		n.add("workspace", nMap().str("base", m.Base).str("path", m.Path))
	}
	n.add("branches", m.Branches.node())
	for _, x := range []struct {
		k string
		v []LegacyC
	}{{"clone", m.Clone}, {"pipeline", m.Pipeline}, {"services", m.Services}} {
		if len(x.v) == 0 {
			continue
		}
		s := nMap()
		s.Ordered = true
		seen := map[string]bool{}
		for _, c := range x.v {
			// what a merge key gives is replaced by the keys of the
			// same name, and not added to them.
			s.NoMerge = s.NoMerge || seen[c.Name]
			seen[c.Name] = true
			if c.Merge && shared != nil {
				s.add(c.Name, c.node().strip().merge(shared))
				continue
			}
			s.add(c.Name, c.node())
		}
		n.add(x.k, s)
	}
	if len(m.Matrix.Axes)+len(m.Matrix.Include) > 0 {
		n.add("matrix", m.Matrix.node())
	}
	if len(m.Secrets) > 0 {
		s := nMap()
		for _, x := range m.Secrets {
			e := nMap()
			switch {
			case x.Driver != "":
				e.str("driver", x.Driver)
				o := nMap()
				if x.Path != "" {
					o.str("path", x.Path)
				}
				if x.Key != "" {
					o.str("key", x.Key)
				}
				if len(o.Keys) > 0 {
					e.add("driver_opts", o)
				}
			case x.Vault:
				e.str("vault", x.Path)
			default:
				e.str("path", x.Path)
			}
			s.add(x.Name, e)
		}
		n.add("secrets", s)
	}
	return n
}

// ---- generators ----

var legacyKeys = map[string]bool{"command": true, "commands": true, "detach": true, "devices": true, "allow_failure": true, "tmpfs": true, "dns": true, "dns_search": true, "entrypoint": true, "environment": true, "extra_hosts": true, "image": true, "name": true, "privileged": true, "pull": true, "shell": true, "volumes": true, "secrets": true, "when": true, "<<": true}

// numberText is text that looks like a value of another type.
var numberText = []string{"1.10", "1.0", "0644", "010", "1e3", "0x1F", "yes", "on", "true", "False", "12345678901234567890", "1_000", "-0", ".5", "190:20:30", "2001-12-14", "08", "1.20.0", "0.10"}

func genLegacyC(t *rapid.T, o opt, name string) LegacyC {
	txt := func(t *rapid.T) string {
		if chance(t, 6) {
			return pick(t, numberText)
		}
		return o.text(t)
	}
	list := func(t *rapid.T) []string { return listOf(t, 1, 3, txt) }
	c := LegacyC{Name: name, Image: o.img(t)}
	c.Commands = maybe(t, 2, list)
	c.Command = maybe(t, 6, list)
	c.Entrypoint = maybe(t, 6, list)
	c.DNS = maybe(t, 10, list)
	c.DNSSearch = maybe(t, 10, list)
	c.ExtraHosts = maybe(t, 10, list)
	c.Detach, c.Privileged, c.Pull = chance(t, 8), chance(t, 8), chance(t, 6)
	if chance(t, 2) {
		c.EnvList = chance(t, 3)
		for _, kv := range genKVs(t, 3, func(t *rapid.T) string {
			if chance(t, 6) {
				return nonEmpty(t, o.key)
			}
			return envName(t)
		}, txt) {
			if c.EnvList {
				kv.K = strings.ReplaceAll(kv.K, "=", "_")
			}
			kv.V = noNull(kv.V)
			c.Env = append(c.Env, kv)
		}
	}
	if chance(t, 4) {
		for _, s := range listOf(t, 1, 2, func(t *rapid.T) string { return strings.ReplaceAll(absPath(t), ":", "_") }) {
			c.Volumes = append(c.Volumes, LegacyVolM{s, "/" + strings.ReplaceAll(safeIdent(t), ":", ""), pick(t, []string{"", "", "ro", "rw"})})
		}
	}
	if chance(t, 3) {
		c.SecretObj = chance(t, 3)
		for _, s := range uniq(t, 3, func(t *rapid.T) string { return nonEmpty(t, o.key) }) {
			kv := KV{s, s}
			if c.SecretObj && chance(t, 2) {
				kv.V = nonEmpty(t, o.key)
			}
			c.Secrets = append(c.Secrets, kv)
		}
	}
	if chance(t, 3) {
		for _, s := range genSettings(t, o) {
			if legacyKeys[s.K] || s.Secret != "" || s.V.K == "" || s.V.K == "n" {
				continue
			}
			c.Vargs = append(c.Vargs, s)
		}
	}
	if chance(t, 2) {
		w := genWhen(t, o)
		c.When = When{Branch: w.Branch, Event: w.Event, Instance: w.Instance, Ref: w.Ref, Repo: w.Repo, Status: w.Status, Target: w.Target}
		if chance(t, 3) {
			c.When.Event = Cond{Inc: listOf(t, 1, 3, func(t *rapid.T) string {
				return pick(t, []string{"push", "tag", "pull_request", "deployment", "deploy", "promote"})
			})}
			if chance(t, 3) {
				c.When.Event = Cond{Exc: c.When.Event.Inc}
			}
		}
	}
	return c
}

func genLegacyCs(t *rapid.T, o opt, max int, alike bool) []LegacyC {
	var out []LegacyC
	names := func(t *rapid.T) []string {
		return uniq(t, max, func(t *rapid.T) string {
			if s := nonEmpty(t, o.key); s != "<<" {
				return s
			}
			return "a"
		})
	}
	if alike {
		// names that are used twice, that are the same in two
		// sections, or that are the same once they are renamed.
		names = func(t *rapid.T) []string {
			return listOf(t, 0, max, func(t *rapid.T) string {
				return pick(t, []string{"a", "a", "a_1", "a_2", "a_3", "a_1_2", "clone"})
			})
		}
	}
	for _, name := range names(t) {
		out = append(out, genLegacyC(t, o, name))
	}
	return out
}

func genLegacyWith(t *rapid.T, o opt) LegacyM {
	var m LegacyM
	alike := chance(t, 6)
	m.Pipeline = genLegacyCs(t, o, 4, alike)
	if chance(t, 3) {
		m.Services = genLegacyCs(t, o, 2, alike)
	}
	if alike || chance(t, 3) {
		m.Clone = genLegacyCs(t, o, 2, alike)
	}
	if chance(t, 4) {
		c := genLegacyC(t, o, "")
		m.Shared = &LegacyC{Image: c.Image, Commands: c.Commands, Env: c.Env, EnvList: c.EnvList, Volumes: c.Volumes, Secrets: c.Secrets, SecretObj: c.SecretObj, Vargs: c.Vargs, Pull: c.Pull, When: c.When}
		for _, list := range [][]LegacyC{m.Clone, m.Pipeline, m.Services} {
			for i := range list {
				list[i].Merge = chance(t, 2)
				if list[i].Merge && chance(t, 2) {
					list[i].Image = ""
				}
			}
		}
	}
	if chance(t, 4) {
		m.Base = maybe(t, 2, absPath)
		m.Path = maybe(t, 2, func(t *rapid.T) string {
			return pick(t, []string{".", "src", "src/github.com/foo/bar", "/a", "a/../b"})
		})
	}
	if chance(t, 3) {
		m.Branches = genCond(t, o)
	}
	if chance(t, 4) {
		for _, name := range uniq(t, 3, o.key) {
			if name == "" || name == "<<" {
				continue
			}
			s := LegacySecM{Name: name, Path: maybe(t, 2, o.text)}
			switch num(t, 0, 2) {
			case 0:
				s.Driver = pick(t, []string{"vault", "vault", "file"})
				s.Key = maybe(t, 2, o.text)
			case 1:
				s.Vault = true
			}
			m.Secrets = append(m.Secrets, s)
		}
	}
	return m
}

func genLegacy(t *rapid.T) LegacyM {
	m := genLegacyWith(t, optText())
	if chance(t, 3) {
		m.Matrix = genMatrix(t, 3)
	}
	return m
}

var axisNames = []string{"GO_VERSION", "REDIS", "OS", "A", "B", "AB", "version", "GO", "DB_TAG", "X1"}
var axisValues = []string{"1.10", "1.11", "latest", "a", "b", "linux/amd64", "3", "true", "yes", "1.0", "010", "alpine-3.8", "v2", "A", "golang", "x_y", "é"}

// genMatrix makes a matrix with values that can be written into
// any text of a yaml file.
func genMatrix(t *rapid.T, max int) MatrixM {
	var m MatrixM
	val := func(t *rapid.T) string {
		if chance(t, 5) {
			return rapid.StringMatching(`[a-z0-9][a-z0-9./_-]{0,6}[a-z0-9]`).Draw(t, "v")
		}
		return pick(t, axisValues)
	}
	axis := func(t *rapid.T) string { return pick(t, axisNames) }
	if chance(t, 3) {
		m.Include = listOf(t, 1, 4, func(t *rapid.T) []KV {
			kvs := genKVs(t, 3, axis, val)
			if len(kvs) == 0 {
				kvs = []KV{{"GO_VERSION", val(t)}}
			}
			return kvs
		})
		if !chance(t, 6) {
			return m
		}
	}
	for _, k := range uniq(t, max, axis) {
		m.Axes = append(m.Axes, AxisM{k, uniq(t, 4, val)})
	}
	return m
}

// ---- reference ----

// combos lists the combinations of a matrix in order: the axes
// in alphabetical order, the last one changing fastest.
func (x MatrixM) combos() []map[string]string {
	var out []map[string]string
	if len(x.Include) > 0 {
		for _, kvs := range x.Include {
			out = append(out, kvMap(kvs))
		}
		return out
	}
	axes := append([]AxisM(nil), x.Axes...)
	sort.SliceStable(axes, func(i, j int) bool { return axes[i].K < axes[j].K })
	for _, a := range axes {
		if len(a.V) == 0 {
			continue
		}
		if out == nil {
			out = []map[string]string{{}}
		}
		var next []map[string]string
		for _, c := range out {
			for _, v := range a.V {
				n := map[string]string{a.K: v}
				for k, v := range c {
					n[k] = v
				}
				next = append(next, n)
			}
		}
		out = next
		if len(out) > 60 {
			out = out[:60]
		}
	}
	return out
}

// the number of combinations is limited to a little more than 25.
const matrixLow, matrixHigh = 25, 30

const axesLow = 10

// LegacyOpts are the options that are taken from the environment.
type LegacyOpts struct {
	Kube, Clone, Pull bool
}

func (o LegacyOpts) set() func() {
	vars := map[string]bool{"DRONE_CONVERT_YAML_LEGACY_TO_KUBERNETES": o.Kube, "DRONE_CONVERT_YAML_LEGACY_CLONE": o.Clone, "DRONE_CONVERT_YAML_DEFAULT_PULL_SECRETS": o.Pull}
	for k, on := range vars {
		if on {
			os.Setenv(k, "true")
		} else {
			os.Unsetenv(k)
		}
	}
	return func() {
		for k := range vars {
			os.Unsetenv(k)
		}
	}
}

// URLM is the url of a repository and the path it stands for.
type URLM struct {
	URL  string `json:"url,omitempty"`
	Path string `json:"path,omitempty"`
}

func genURL(t *rapid.T) URLM {
	switch num(t, 0, 5) {
	case 0:
		return URLM{"", "src"}
	case 1:
		return pick(t, []URLM{{":", "src"}, {"%zz", "src"}, {"octocat/hello-world", "src"}, {"/octocat/hello-world", "src"}, {"git@github.com:octocat/hello-world.git", "src"}})
	}
	host := pick(t, []string{"github.com", "git.example.com", "localhost", "bitbucket.org", "10.0.0.1", "GitHub.com"})
	repo := safeIdent(t) + pick(t, []string{"/", "/sub/", ""}) + safeIdent(t) + pick(t, []string{"", "", ".git"})
	return URLM{pick(t, []string{"https", "http", "ssh", "git"}) + "://" + pick(t, []string{"", "", "git@", "u:p@"}) + host + pick(t, []string{"", "", ":8080"}) + "/" + repo + pick(t, []string{"", "", "/"}),
		"src/" + host + "/" + repo}
}

func promote(c Cond) Cond {
	f := func(in []string) (out []string) {
		for _, s := range in {
			if s == "deploy" || s == "deployment" {
				s = "promote"
			}
			out = append(out, s)
		}
		return
	}
	return Cond{f(c.Inc), f(c.Exc)}
}

func (c LegacyC) step() StepM {
	s := StepM{Name: c.Name, Image: c.Image, Detach: c.Detach, Privileged: c.Privileged, Command: c.Command, Commands: c.Commands, Entrypoint: c.Entrypoint,
		DNS: c.DNS, DNSSearch: c.DNSSearch, ExtraHosts: c.ExtraHosts, Pull: "if-not-exists", When: c.When}
	s.When.Event = promote(c.When.Event)
	if c.Pull {
		s.Pull = "always"
	}
	env := map[string]EnvM{}
	for _, kv := range c.Env {
		env[kv.K] = EnvM{K: kv.K, V: kv.V}
	}
	for _, kv := range c.Secrets {
		k := strings.ToUpper(kv.V)
		env[k] = EnvM{K: k, Secret: kv.K}
	}
	for _, e := range env {
		s.Env = append(s.Env, e)
	}
	sort.Slice(s.Env, func(i, j int) bool { return s.Env[i].K < s.Env[j].K })
	for _, v := range c.Volumes {
		s.Volumes = append(s.Volumes, MountM{Name: v.Source, Path: v.Dest})
	}
	s.Settings = append(s.Settings, c.Vargs...)
	return s
}

// LegacyCase is a legacy configuration to be converted.
type LegacyCase struct {
	M     LegacyM    `json:"m"`
	URL   URLM       `json:"url"`
	Opts  LegacyOpts `json:"opts"`
	Style []int      `json:"style,omitempty"`
}

// substitute replaces the variables in all texts that a pipeline
// can have.
func substitute(p PipeM, env map[string]string) PipeM {
	var pairs []string
	for k, v := range env {
		pairs = append(pairs, "${"+k+"}", v)
	}
	r := strings.NewReplacer(pairs...)
	return respellPipe(p, r.Replace)
}

// respellPipe applies f to every text of a converted pipeline.
func respellPipe(p PipeM, f func(string) string) PipeM {
	list := func(in []string) (out []string) {
		for _, s := range in {
			out = append(out, f(s))
		}
		return
	}
	cond := func(c Cond) Cond { return Cond{list(c.Inc), list(c.Exc)} }
	when := func(w When) When {
		w.each(func(_ string, c *Cond) { *c = cond(*c) })
		return w
	}
	var val func(Val) Val
	val = func(v Val) Val {
		v.S = f(v.S)
		l := v.L
		v.L = nil
		for _, x := range l {
			v.L = append(v.L, val(x))
		}
		m := v.M
		v.M = nil
		for _, x := range m {
			v.M = append(v.M, KVal{val(x.K), val(x.V)})
		}
		return v
	}
	steps := func(in []StepM) (out []StepM) {
		for _, s := range in {
			s.Name, s.Image = f(s.Name), f(s.Image)
			s.Command, s.Commands, s.Entrypoint = list(s.Command), list(s.Commands), list(s.Entrypoint)
			s.DNS, s.DNSSearch, s.ExtraHosts = list(s.DNS), list(s.DNSSearch), list(s.ExtraHosts)
			var env []EnvM
			for _, e := range s.Env {
				env = append(env, EnvM{K: f(e.K), V: f(e.V), Secret: f(e.Secret)})
			}
			var set []SetM
			for _, e := range s.Settings {
				set = append(set, SetM{K: f(e.K), V: val(e.V)})
			}
			var vols []MountM
			for _, v := range s.Volumes {
				vols = append(vols, MountM{Name: v.Name, Path: f(v.Path)})
			}
			s.Env, s.Settings, s.Volumes = env, set, vols
			s.When = when(s.When)
			out = append(out, s)
		}
		return
	}
	p.Base, p.Path = f(p.Base), f(p.Path)
	p.Steps, p.Services = steps(p.Steps), steps(p.Services)
	p.Trigger = when(p.Trigger)
	return p
}

// reference is what the configuration means in the new format.
// The names of volumes stand for themselves: a volume is named by
// its path. dup tells the steps whose name was in use.
func (in LegacyCase) reference() (out ManifestM, dup bool) {
	in.M = in.M.resolved()
	p := PipeM{Kind: "pipeline", Name: "default", Base: in.M.Base, Path: in.M.Path}
	if p.Path == "." {
		p.Path = ""
	}
	if in.URL.URL != "" {
		if p.Base == "" {
			p.Base = "/drone"
		}
		if p.Path == "" {
			p.Path = in.URL.Path
		}
	}
	if in.Opts.Kube {
		p.Type = "kubernetes"
		base, dir := in.M.Base, in.M.Path
		if base == "" {
			base = "/drone"
		}
		if dir == "" {
			dir = in.URL.Path
		}
		p.Base, p.Path = "", path.Join(base, dir)
	}
	for _, c := range in.M.Clone {
		p.CloneOff = true
		p.Steps = append(p.Steps, c.step())
	}
	if len(in.M.Clone) == 0 && in.Opts.Clone {
		p.CloneOff = true
		p.Steps = append(p.Steps, StepM{Name: "clone", Image: "plugins/git", Pull: "if-not-exists"})
	}
	for _, c := range in.M.Pipeline {
		p.Steps = append(p.Steps, c.step())
	}
	for _, c := range in.M.Services {
		p.Services = append(p.Services, c.step())
	}
	seen := map[string]bool{}
	for _, s := range p.Steps {
		dup = dup || seen[s.Name]
		seen[s.Name] = true
	}
	vols := map[string]bool{}
	for _, list := range [][]LegacyC{in.M.Clone, in.M.Pipeline, in.M.Services} {
		for _, c := range list {
			for _, v := range c.Volumes {
				if !vols[v.Source] {
					vols[v.Source] = true
					src := v.Source
					p.Volumes = append(p.Volumes, VolM{Name: src, Host: &src})
				}
			}
		}
	}
	p.Trigger.Branch = in.M.Branches
	if len(in.M.Branches.Inc) > 0 && len(in.M.Branches.Exc) == 0 {
		p.Trigger.Branch = Cond{}
		ref := []string{"refs/pull/**", "refs/pull-requests/**", "refs/merge-requests/**"}
		for _, b := range in.M.Branches.Inc {
			ref = append(ref, "refs/heads/"+b)
		}
		for _, s := range p.Steps {
			if inList("tag", s.When.Event.Inc) {
				ref = append(ref, "refs/tags/**")
				break
			}
		}
		p.Trigger.Ref.Inc = ref
	}
	if in.Opts.Pull {
		p.PullSecrets = []string{".dockerconfigjson"}
	}
	combos := in.M.Matrix.combos()
	if len(combos) == 0 {
		out.R = append(out.R, ResourceM{Pipe: &p})
	}
	for i, env := range combos {
		q := p
		q.Name = fmt.Sprintf("matrix-%d", i+1)
		keep := func(in []StepM) (out []StepM) {
			for _, s := range in {
				ok := true
				for _, kv := range s.When.Matrix {
					if v, has := env[kv.K]; !has || v != kv.V {
						ok = false
					}
				}
				if ok {
					out = append(out, s)
				}
			}
			return
		}
		q.Steps, q.Services = keep(q.Steps), keep(q.Services)
		q = substitute(q, env)
		out.R = append(out.R, ResourceM{Pipe: &q})
	}
	secs := append([]LegacySecM(nil), in.M.Secrets...)
	sort.Slice(secs, func(i, j int) bool { return secs[i].Name < secs[j].Name })
	for _, s := range secs {
		r := SecretM{Kind: "secret", Name: s.Name, GetPath: s.Path}
		switch {
		case s.Driver == "vault":
			r.GetName = s.Key
		case s.Driver != "":
			r.GetPath = ""
		}
		out.R = append(out.R, ResourceM{Sec: &r})
	}
	return
}

// checkConverted compares a converted file with the reference.
// Steps may be renamed, if strict only those whose name is in use.
func checkConverted(text string, want ManifestM, rename, strict bool) *V {
	got, err := yaml.ParseString(text)
	if err != nil {
		return fail("the converted file does not parse: %v\n%s", err, text)
	}
	want = want.formatted()
	if len(got.Resources) != len(want.R) {
		return fail("%d resources, want %d\n%s", len(got.Resources), len(want.R), text)
	}
	w := want.drone().Resources
	for i, r := range got.Resources {
		if fmt.Sprintf("%T", r) != fmt.Sprintf("%T", w[i]) {
			return fail("resource %d is a %T\n%s", i, r, text)
		}
		p, ok := r.(*yaml.Pipeline)
		if !ok {
			continue
		}
		// volumes are identified by their path.
		names := map[string]string{}
		for _, v := range p.Volumes {
			if v == nil || v.HostPath == nil {
				return fail("pipeline %d has a volume without a path\n%s", i, text)
			}
			if _, ok := names[v.Name]; ok {
				return fail("pipeline %d has two volumes named %q\n%s", i, v.Name, text)
			}
			names[v.Name] = v.HostPath.Path
			v.Name = v.HostPath.Path
		}
		for _, list := range [][]*yaml.Container{p.Steps, p.Services} {
			for _, s := range list {
				if s == nil {
					continue
				}
				for _, m := range s.Volumes {
					if m == nil {
						continue
					}
					host, ok := names[m.Name]
					if !ok {
						return fail("step %q mounts the unknown volume %q\n%s", s.Name, m.Name, text)
					}
					m.Name = host
				}
			}
		}
		if !rename {
			continue
		}
		// a step is renamed if, and only if, its name is in use.
		wp := w[i].(*yaml.Pipeline)
		used := map[string]bool{}
		var given []string
		for _, s := range p.Steps {
			given = append(given, s.Name)
		}
		for j, s := range p.Steps {
			if j >= len(wp.Steps) {
				break
			}
			if used[s.Name] {
				return fail("pipeline %d has two steps named %q\n%s", i, s.Name, text)
			}
			used[s.Name] = true
			name := wp.Steps[j].Name
			if s.Name != name && strings.HasPrefix(s.Name, name+"_") {
				others := 0
				for k := range wp.Steps {
					if k < j && (wp.Steps[k].Name == name || given[k] == name) {
						others++
					}
				}
				if others == 0 && strict {
					return fail("step %q is renamed to %q\n%s", name, s.Name, text)
				}
				s.Name = name
			}
		}
	}
	if s := sameNum(got.Resources, w); s != "" {
		return fail("%s\n%s", s, text)
	}
	return nil
}

func checkLegacy(c *C, in LegacyCase) *V {
	text, nodes := emitDocs([]*Node{in.M.node()}, in.Style, nil)
	if !agrees(text, nodes) {
		return c.Discard("the yaml parsers disagree on the file")
	}
	want, dup := in.reference()
	combos := in.M.Matrix.combos()
	if len(combos) > matrixLow {
		return c.Discard("more combinations than the limit")
	}
	n := len(in.M.Pipeline) + len(in.M.Services) + len(in.M.Clone)
	c.NonTrivialIf(n > 0)
	c.ClassIf(n > 2, "three or more containers")
	c.ClassIf(len(combos) > 0, "matrix")
	c.ClassIf(len(combos) > 1, "several combinations")
	c.ClassIf(strings.Contains(text, "<<:"), "merge keys")
	c.ClassIf(dup, "a name is used twice")
	c.ClassIf(len(in.M.Clone) > 0, "clone section")
	c.ClassIf(in.Opts != LegacyOpts{}, "options of the environment")
	sub := false
	for _, env := range combos {
		for k := range env {
			sub = sub || strings.Contains(text, "${"+k+"}")
		}
	}
	c.ClassIf(sub, "variables are replaced")
	defer in.Opts.set()()
	out, err := legacy.Convert([]byte(text), in.URL.URL)
	if err != nil {
		return fail("the file is not converted: %v\n%s", err, text)
	}
	if v := checkConverted(string(out), want, true, len(combos) == 0); v != nil {
		v.Msg += "\n---- the legacy file ----\n" + text
		return v
	}
	// the linter is content with the result.
	if lintable(want) {
		c.Class("the linter is applied")
		m, _ := yaml.ParseString(string(out))
		for _, r := range m.Resources {
			if err := linter.Lint(r, true); err != nil {
				return fail("%v\n%s", err, out)
			}
		}
	}
	return nil
}

// lintable says that all containers have images and names, and
// that no service has the name of another container.
func lintable(m ManifestM) bool {
	for _, r := range m.R {
		if r.Sec != nil && (r.Sec.Name == "" || r.Sec.GetPath == "") {
			return false
		}
		if r.Pipe == nil {
			continue
		}
		seen := map[string]bool{}
		if !r.Pipe.CloneOff {
			seen["clone"] = true
		}
		for _, s := range r.Pipe.Steps {
			// of several steps of a name all but one are renamed.
			if s.Name == "" || s.Image == "" || s.Name == "clone" && seen["clone"] {
				return false
			}
		}
		for _, s := range r.Pipe.Steps {
			seen[s.Name] = true
		}
		for _, s := range r.Pipe.Services {
			if s.Name == "" || s.Image == "" || seen[s.Name] {
				return false
			}
			seen[s.Name] = true
		}
	}
	return true
}

func genLegacyCase(t *rapid.T) LegacyCase {
	in := LegacyCase{M: genLegacyWith(t, optText()), URL: genURL(t), Style: genStyle(t)}
	if chance(t, 4) {
		in.Opts = LegacyOpts{chance(t, 2), chance(t, 2), chance(t, 2)}
	}
	return in
}

// genLegacyMatrix: a configuration with a matrix whose variables
// are used all over the file.
func genLegacyMatrix(t *rapid.T) LegacyCase {
	in := LegacyCase{URL: genURL(t), Style: genStyle(t)}
	in.M.Matrix = genMatrix(t, 3)
	var names []string
	for _, c := range in.M.Matrix.combos() {
		for k := range c {
			names = append(names, k)
		}
	}
	names = append(names, "UNKNOWN")
	sort.Strings(names)
	o := optText()
	// the yaml library escapes all that follows a byte order mark.
	plain := func(t *rapid.T) string { return strings.ReplaceAll(anyText(t), "\ufeff", "") }
	withVar := func(f func(*rapid.T) string) func(*rapid.T) string {
		return func(t *rapid.T) string {
			if !chance(t, 3) {
				return f(t)
			}
			s := "${" + pick(t, names) + "}"
			switch num(t, 0, 3) {
			case 0:
				return s
			case 1:
				return pick(t, words) + "-" + s
			case 2:
				return "echo " + s + " ${" + pick(t, names) + "}"
			}
			return f(t) + s + f(t)
		}
	}
	o.text = withVar(plain)
	o.img = withVar(image)
	// the yaml library writes the key << without quotes.
	o.key = func(t *rapid.T) string { return strings.ReplaceAll(nonEmpty(t, shortText), "<<", "a") }
	m := genLegacyWith(t, o)
	m.Matrix = in.M.Matrix
	combos := m.Matrix.combos()
	if m.Shared != nil {
		for j := range m.Shared.Vargs {
			m.Shared.Vargs[j].V = keepText(m.Shared.Vargs[j].V)
		}
	}
	for _, list := range [][]LegacyC{m.Clone, m.Pipeline, m.Services} {
		for i := range list {
			c := &list[i]
			for j := range c.Vargs {
				c.Vargs[j].V = keepText(c.Vargs[j].V)
			}
			if chance(t, 3) && len(combos) > 0 {
				env := pick(t, combos)
				var keys []string
				for k := range env {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				c.When.Matrix = []KV{{pick(t, keys), ""}}
				c.When.Matrix[0].V = env[c.When.Matrix[0].K]
				if chance(t, 6) {
					c.When.Matrix[0].V = nearText(t, c.When.Matrix[0].V)
				}
				if chance(t, 6) {
					c.When.Matrix = append(c.When.Matrix, KV{pick(t, []string{"OTHER", "other", c.When.Matrix[0].K + "X"}), pick(t, []string{"x", "", c.When.Matrix[0].V})})
				}
			}
		}
	}
	in.M = m
	return in
}

// keepText makes sure that a text is a text, whatever its
// variables are replaced by.
func keepText(v Val) Val {
	if strings.Contains(v.S, "${") {
		v.S = "v" + v.S
	}
	for i := range v.L {
		v.L[i] = keepText(v.L[i])
	}
	for i := range v.M {
		v.M[i].V = keepText(v.M[i].V)
		v.M[i].K = keepText(v.M[i].K)
	}
	return v
}

// MatrixCase is a matrix on its own.
type MatrixCase struct {
	X     MatrixM `json:"x"`
	Style []int   `json:"style,omitempty"`
}

func genMatrixCase(t *rapid.T) MatrixCase {
	if !chance(t, 3) {
		x := genMatrix(t, 4)
		for i := range x.Axes {
			for j := range x.Axes[i].V {
				if chance(t, 6) {
					x.Axes[i].V[j] = anyText(t)
				}
			}
			x.Axes[i].V = dedupe(x.Axes[i].V)
		}
		return MatrixCase{x, genStyle(t)}
	}
	// around the limit.
	var x MatrixM
	n := num(t, 1, 10)
	if chance(t, 5) {
		n = num(t, 10, 14)
	}
	if chance(t, 8) {
		// so many combinations that their number is no integer.
		n = num(t, 14, 80)
		most := pick(t, []int{2, 2, 3, 4, 16, 40})
		for i := 0; i < n; i++ {
			a := AxisM{K: fmt.Sprintf("K%02d", i)}
			for j, m := 0, num(t, min(most, 2), most); j < m; j++ {
				a.V = append(a.V, fmt.Sprintf("v%d", j))
			}
			x.Axes = append(x.Axes, a)
		}
		return MatrixCase{x, genStyle(t)}
	}
	for i := 0; i < n; i++ {
		a := AxisM{K: fmt.Sprintf("K%02d", i)}
		if i > 4 && chance(t, 2) {
			a.V = []string{"v"}
			x.Axes = append(x.Axes, a)
			continue
		}
		for j, m := 0, num(t, 1, pick(t, []int{2, 6, 40})); j < m; j++ {
			a.V = append(a.V, fmt.Sprintf("v%d", j))
		}
		x.Axes = append(x.Axes, a)
	}
	return MatrixCase{x, genStyle(t)}
}

func dedupe(in []string) (out []string) {
	for _, s := range in {
		if !inList(s, out) {
			out = append(out, s)
		}
	}
	return
}

func checkMatrix(c *C, in MatrixCase) *V {
	n := nMap()
	if len(in.X.Axes)+len(in.X.Include) > 0 {
		n.add("matrix", in.X.node())
	}
	n.add("pipeline", nMap().add("a", nMap().str("image", "golang")))
	text, nodes := emitDocs([]*Node{n}, in.Style, nil)
	if !agrees(text, nodes) {
		return c.Discard("the yaml parsers disagree on the file")
	}
	want := in.X.combos()
	c.NonTrivialIf(len(want) > 1)
	c.ClassIf(len(in.X.Include) > 0, "included combinations")
	c.ClassIf(len(want) > matrixLow, "more combinations than the limit")
	c.ClassIf(len(want) > 1 && len(want) <= matrixLow, "all combinations are expected")
	got, err := matrix.Parse([]byte(text))
	if err != nil {
		return fail("%v\n%s", err, text)
	}
	if len(in.X.Include) == 0 && len(want) > matrixLow {
		if len(got) < matrixLow || len(got) > matrixHigh {
			return fail("%d combinations of %d\n%s", len(got), len(want), text)
		}
		if len(want) > len(got) {
			want = want[:len(got)]
		}
	}
	if len(got) != len(want) {
		return fail("%d combinations, want %d\n%s", len(got), len(want), text)
	}
	c.ClassIf(len(in.X.Axes) > axesLow, "more axes than the limit")
	for i := range got {
		if len(in.X.Include) == 0 && len(want[i]) > axesLow && len(got[i]) >= axesLow {
			// the first axes count.
			var keys []string
			for k := range want[i] {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys[len(got[i]):] {
				delete(want[i], k)
			}
		}
		if fmt.Sprint(map[string]string(got[i])) != fmt.Sprint(want[i]) {
			return fail("combination %d: got %v, want %v\n%s", i, got[i], want[i], text)
		}
		// as text, it has all of the variables, in some fixed order.
		s := got[i].String()
		rest := len(s) - len(got[i]) + 1
		for k, v := range want[i] {
			if !strings.Contains(s, k+"="+v) {
				return fail("combination %d: %q lacks %s=%s\n%s", i, s, k, v, text)
			}
			rest -= len(k + "=" + v)
		}
		if rest > 0 {
			return fail("combination %d: %q has more than %v\n%s", i, s, want[i], text)
		}
		for j := 0; j < 3; j++ {
			if again := got[i].String(); again != s {
				return fail("combination %d is written as %q and as %q\n%s", i, s, again, text)
			}
		}
	}
	again, err := matrix.ParseString(text)
	if err != nil || fmt.Sprint(again) != fmt.Sprint(got) {
		return fail("ParseString and Parse differ: %v\n%s", err, text)
	}
	return nil
}

func init() {
	register(&Prop{ID: "C26", Title: "A legacy pipeline is converted without loss",
		Assumptions: []string{"the properties devices, tmpfs, shell and allow_failure have no counterpart and are left out", "volumes are given as source:destination[:mode]", "the quoted text null is left out where the yaml library confuses it with a null value", "a merge key comes before the keys that replace its values"},
		Subs: []Sub{
			sub("convert", "legacy configurations with clone, pipeline and services sections, merge keys and all spellings of lists, environment and secrets, with random repository urls and environment options; the converted file is parsed and compared with a reference conversion, and linted; non-trivial: has a container", 40000, 800000, genLegacyCase, checkLegacy).shards(8),
			sub("misuse", "legacy configurations in which one value has a type that its attribute does not have must be rejected; non-trivial: always", 8000, 160000, genExtMisuse("legacy"), checkExtMisuse).shards(4)}})
	register(&Prop{ID: "C27", Title: "A legacy matrix becomes one pipeline per combination",
		Assumptions: []string{"the values of the matrix are letters, digits and the characters ./_- that need no quoting in yaml", "the limit on the number of combinations is between 25 and 30", "settings that consist of a variable alone are left out: their type depends on the value"},
		Subs: []Sub{
			sub("expand", "matrices of axes, of included combinations and around the limit, against a reference expansion; non-trivial: two or more combinations", 16000, 1000000, genMatrixCase, checkMatrix).shards(4),
			sub("convert", "legacy configurations with a matrix whose variables are used in all texts, and with steps that are limited to some of its values; all pipelines are compared with the reference conversion; non-trivial: has a container", 12000, 800000, genLegacyMatrix, checkLegacy).shards(8)}})
}
