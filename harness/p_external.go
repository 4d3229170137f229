package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/drone/drone-yaml/yaml/converter/bitbucket"
	"github.com/drone/drone-yaml/yaml/converter/gitlab"
	"pgregory.net/rapid"
)

// ---- gitlab ----

// GitlabM is a configuration of gitlab.
type GitlabM struct {
	Image     *ImageM  `json:"image,omitempty"`
	Stages    []string `json:"stages,omitempty"`
	Services  []ImageM `json:"services,omitempty"`
	Variables []KV     `json:"variables,omitempty"`
	Before    []string `json:"before,omitempty"`
	After     []string `json:"after,omitempty"`
	Jobs      []JobM   `json:"jobs,omitempty"`
	Shared    *JobM    `json:"shared,omitempty"` // a template, used by merge keys
	Last      bool     `json:"last,omitempty"`   // the jobs come before the rest
	Spread    int      `json:"spread,omitempty"` // so many jobs, the last ones, come from a merge key of the file
	At        int      `json:"at,omitempty"`     // where this key is
}

// spread are the jobs that come from a merge key.
func (m GitlabM) spread() int {
	n := 0
	for n < m.Spread && n < len(m.Jobs) {
		j := m.Jobs[len(m.Jobs)-1-n]
		if j.Null || jobKeys[j.Name] {
			break
		}
		n++
	}
	return n
}

// ImageM is an image of gitlab.
type ImageM struct {
	Null       bool     `json:"null,omitempty"`
	Name       string   `json:"name,omitempty"`
	Entrypoint []string `json:"entrypoint,omitempty"`
	Command    []string `json:"command,omitempty"`
	Alias      string   `json:"alias,omitempty"`
}

// JobM is a job of gitlab.
type JobM struct {
	Null      bool     `json:"null,omitempty"`
	Name      string   `json:"name"`
	Stage     string   `json:"stage,omitempty"`
	Image     *ImageM  `json:"image,omitempty"`
	Script    []string `json:"script,omitempty"`
	Before    []string `json:"before,omitempty"`
	After     []string `json:"after,omitempty"`
	Allow     bool     `json:"allow,omitempty"`
	Only      []string `json:"only,omitempty"`
	When      string   `json:"when,omitempty"`
	Variables []KV     `json:"variables,omitempty"`
	Merge     bool     `json:"merge,omitempty"`
}

func (i *ImageM) node() *Node {
	if i.Null {
		return nNull()
	}
	long := nMap().str("name", i.Name).one("entrypoint", i.Entrypoint).one("command", i.Command).str("alias", i.Alias)
	if len(i.Entrypoint)+len(i.Command) == 0 && i.Alias == "" && noNull(i.Name) == i.Name {
		return nAlt(nStr(i.Name), long)
	}
	return long
}

func (j JobM) node() *Node {
	if j.Null {
		return nNull()
	}
	m := nMap().str("stage", j.Stage)
	if j.Image != nil {
		m.add("image", j.Image.node())
	}
	m.one("script", j.Script).one("before_script", j.Before).one("after_script", j.After)
	m.boolean("allow_failure", j.Allow)
	m.one("only", j.Only).str("when", j.When).kvs("variables", j.Variables)
	return m
}

func (m GitlabM) node() *Node {
	top, jobs := nMap(), nMap()
	if m.Image != nil {
		top.add("image", m.Image.node())
	}
	top.strs("stages", m.Stages)
	if len(m.Services) > 0 {
		l := nList()
		for i := range m.Services {
			l.Items = append(l.Items, m.Services[i].node())
		}
		top.add("services", l)
	}
	top.kvs("variables", m.Variables).one("before_script", m.Before).one("after_script", m.After)
	var shared *Node
	if m.Shared != nil {
		shared = m.Shared.node().strip()
		shared.Anchor = "shared"
		jobs.add(".shared", shared)
	}
	spread, merged := m.spread(), nMap()
	for i, j := range m.Jobs {
		to := jobs
		if i >= len(m.Jobs)-spread {
			to = merged
		}
		if j.Merge && shared != nil && !j.Null {
			to.add(j.Name, j.node().strip().merge(shared))
			continue
		}
		to.add(j.Name, j.node().strip())
		if to == jobs {
			to.Items[len(to.Items)-1] = j.node()
		}
	}
	if m.Last {
		top, jobs = jobs, top
	}
	n := nMap()
	n.Keys = append(append(n.Keys, top.Keys...), jobs.Keys...)
	n.Items = append(append(n.Items, top.Items...), jobs.Items...)
	if spread > 0 {
		// the templates come first.
		front, rest := nMap(), nMap()
		for i, k := range n.Keys {
			to := rest
			if n.Items[i] == shared {
				to = front
			}
			to.Keys, to.Items = append(to.Keys, k), append(to.Items, n.Items[i])
		}
		merged.Anchor = "jobs"
		merged.Ordered, merged.NoMerge = true, true
		front.add(".jobs", merged)
		at := m.At % (len(rest.Keys) + 1)
		n = nMap()
		n.Keys = append(append(append(append(n.Keys, front.Keys...), rest.Keys[:at]...), nLit("<<")), rest.Keys[at:]...)
		n.Items = append(append(append(append(n.Items, front.Items...), rest.Items[:at]...), &Node{Kind: "alias", Text: "jobs", Items: []*Node{merged}}), rest.Items[at:]...)
	}
	n.Ordered, n.NoMerge = true, true
	return n
}

var gitlabKeys = map[string]bool{"image": true, "stages": true, "services": true, "variables": true, "before_script": true, "after_script": true, "<<": true, "": true}

var jobKeys = map[string]bool{"name": true, "stage": true, "script": true, "only": true, "except": true, "allow_failure": true, "when": true}

func genImageM(t *rapid.T, o opt) *ImageM {
	i := &ImageM{Name: nonEmpty(t, o.img)}
	if chance(t, 3) {
		i.Entrypoint = maybe(t, 2, texts(o, 2))
		i.Command = maybe(t, 3, texts(o, 2))
	}
	return i
}

func genGitlab(t *rapid.T) GitlabM {
	o := optText()
	list := texts(o, 3)
	var m GitlabM
	if chance(t, 2) {
		m.Image = genImageM(t, o)
	}
	if chance(t, 2) {
		m.Stages = uniq(t, 3, func(t *rapid.T) string {
			if chance(t, 2) {
				return pick(t, []string{"build", "test", "deploy"})
			}
			return nonEmpty(t, o.text)
		})
	}
	if chance(t, 3) {
		m.Services = listOf(t, 1, 2, func(t *rapid.T) ImageM {
			if chance(t, 12) {
				return ImageM{Null: true}
			}
			i := genImageM(t, o)
			i.Alias = maybe(t, 2, o.text)
			return *i
		})
	}
	m.Variables = maybe(t, 5, func(t *rapid.T) []KV { return genKVs(t, 2, o.key, o.text) })
	m.Before, m.After = maybe(t, 3, list), maybe(t, 3, list)
	m.Last = chance(t, 4)
	job := func(t *rapid.T, name string) JobM {
		j := JobM{Name: name, Script: list(t)}
		if chance(t, 12) {
			j.Script = nil
		}
		j.Before, j.After = maybe(t, 4, list), maybe(t, 4, list)
		if chance(t, 2) {
			j.Image = genImageM(t, o)
		}
		if len(m.Stages) > 0 && !chance(t, 6) {
			j.Stage = pick(t, m.Stages)
		}
		j.Allow = chance(t, 5)
		j.Only = maybe(t, 8, list)
		j.When = maybe(t, 8, func(t *rapid.T) string { return pick(t, []string{"on_success", "always", "manual"}) })
		j.Variables = maybe(t, 8, func(t *rapid.T) []KV { return genKVs(t, 2, o.key, o.text) })
		return j
	}
	if chance(t, 3) {
		j := job(t, ".shared")
		m.Shared = &j
	}
	for _, name := range uniq(t, 5, func(t *rapid.T) string {
		if chance(t, 10) {
			return "." + safeIdent(t)
		}
		return nonEmpty(t, o.key)
	}) {
		if gitlabKeys[name] || name == ".shared" {
			continue
		}
		j := job(t, name)
		if chance(t, 20) {
			j = JobM{Name: name, Null: true}
		}
		if j.Merge = m.Shared != nil && chance(t, 2); j.Merge {
			if chance(t, 2) {
				j.Script = nil
			}
			if chance(t, 2) {
				j.Stage = ""
			}
		}
		m.Jobs = append(m.Jobs, j)
	}
	if chance(t, 4) {
		m.Spread, m.At = num(t, 1, 2), num(t, 0, 9)
	}
	return m
}

func (j JobM) merged(b *JobM) JobM {
	if b == nil || !j.Merge || j.Null {
		return j
	}
	if j.Stage == "" {
		j.Stage = b.Stage
	}
	if j.Image == nil {
		j.Image = b.Image
	}
	if len(j.Script) == 0 {
		j.Script = b.Script
	}
	if len(j.Before) == 0 {
		j.Before = b.Before
	}
	if len(j.After) == 0 {
		j.After = b.After
	}
	j.Allow = j.Allow || b.Allow
	return j
}

// reference is the configuration in the new format; lost tells
// that a job has a stage that is not one of the stages.
func (m GitlabM) reference() (out ManifestM, lost bool) {
	type pipe struct {
		name string
		jobs []JobM
	}
	var pipes []pipe
	for _, s := range m.Stages {
		pipes = append(pipes, pipe{name: s})
	}
	// jobs of a merge key come last, by name.
	all := append([]JobM(nil), m.Jobs...)
	late := all[len(all)-m.spread():]
	sort.Slice(late, func(i, j int) bool { return late[i].Name < late[j].Name })
	for _, j := range all {
		if j.Null || strings.HasPrefix(j.Name, ".") {
			continue
		}
		j = j.merged(m.Shared)
		if len(m.Stages) == 0 {
			pipes = append(pipes, pipe{j.Name, []JobM{j}})
			continue
		}
		stage := j.Stage
		if stage == "" {
			stage = "test"
		}
		found := false
		for i := range pipes {
			if pipes[i].name == stage {
				pipes[i].jobs = append(pipes[i].jobs, j)
				found = true
			}
		}
		lost = lost || !found
	}
	for i, p := range pipes {
		r := PipeM{Kind: "pipeline", Name: p.name}
		if i > 0 {
			r.DependsOn = []string{pipes[i-1].name}
		}
		for _, j := range p.jobs {
			img := ImageM{}
			if j.Image != nil {
				img = *j.Image
			}
			if j.Image == nil && m.Image != nil {
				// only the name of the default image is used,
				// which a test of the repository asks for.
				img.Name = m.Image.Name
			}
			s := StepM{Name: j.Name, Image: img.Name, Entrypoint: img.Entrypoint, Command: img.Command}
			for _, l := range [][]string{m.Before, j.Before, j.Script, j.After, m.After} {
				s.Commands = append(s.Commands, l...)
			}
			if j.Allow {
				s.Failure = "ignore"
			}
			r.Steps = append(r.Steps, s)
		}
		for _, v := range m.Services {
			if v.Null {
				continue
			}
			s := StepM{Name: v.Alias, Image: v.Name, Entrypoint: v.Entrypoint, Command: v.Command}
			if s.Name == "" {
				s.Name = strings.ReplaceAll(refTrim(v.Name), "/", "__")
			}
			r.Services = append(r.Services, s)
		}
		out.R = append(out.R, ResourceM{Pipe: &r})
	}
	return
}

// GitlabCase is a configuration to be converted.
type GitlabCase struct {
	M     GitlabM `json:"m"`
	Style []int   `json:"style,omitempty"`
}

func checkGitlab(c *C, in GitlabCase) *V {
	text, nodes := emitDocs([]*Node{in.M.node()}, in.Style, nil)
	if !agrees(text, nodes) {
		return c.Discard("the yaml parsers disagree on the file")
	}
	want, lost := in.M.reference()
	if lost {
		return c.Discard("a job has an unknown stage")
	}
	c.NonTrivialIf(want.steps() > 0)
	c.ClassIf(want.steps() > 1, "two or more jobs")
	c.ClassIf(len(in.M.Stages) > 0, "stages")
	c.ClassIf(len(in.M.Services) > 0, "services")
	c.ClassIf(in.M.Shared != nil, "a template")
	c.ClassIf(in.M.spread() > 0, "jobs of a merge key")
	out, err := gitlab.Convert([]byte(text))
	if err != nil {
		return fail("the file is not converted: %v\n%s", err, text)
	}
	if len(want.R) == 0 {
		if strings.TrimSpace(string(out)) != "..." && strings.TrimSpace(string(out)) != "" {
			return fail("there is no job, but the result is\n%s", out)
		}
		return nil
	}
	if v := checkConverted(string(out), want, false, false); v != nil {
		v.Msg += "\n---- the gitlab file ----\n" + text
		return v
	}
	return nil
}

// ---- bitbucket ----

// BitbucketM is a configuration of bitbucket.
type BitbucketM struct {
	Image    string    `json:"image,omitempty"`
	Depth    int       `json:"depth,omitempty"`
	Default  []BStepM  `json:"default,omitempty"`
	Tags     []BStageM `json:"tags,omitempty"`
	Branches []BStageM `json:"branches,omitempty"`
	Services []BStepM  `json:"services,omitempty"`
}

type BStageM struct {
	Pattern string   `json:"pattern"`
	Steps   []BStepM `json:"steps,omitempty"`
}

type BStepM struct {
	Null   bool     `json:"null,omitempty"`
	Name   string   `json:"name,omitempty"`
	Image  string   `json:"image,omitempty"`
	Script []string `json:"script,omitempty"`
	Vars   []KV     `json:"vars,omitempty"`
}

func (s BStepM) node() *Node {
	if s.Null {
		return nNull()
	}
	return nMap().str("name", s.Name).str("image", s.Image).strs("script", s.Script).kvs("variables", s.Vars)
}

func stageNode(steps []BStepM) *Node {
	l := nList()
	for _, s := range steps {
		if s.Null {
			l.Items = append(l.Items, nAlt(nMap().add("step", nNull()), nMap(), nNull()))
			continue
		}
		l.Items = append(l.Items, nMap().add("step", s.node()))
	}
	return l
}

func (m BitbucketM) node() *Node {
	n := nMap().str("image", m.Image)
	if m.Depth != 0 {
		n.add("clone", nMap().integer("depth", m.Depth))
	}
	p := nMap()
	if len(m.Default) > 0 {
		p.add("default", stageNode(m.Default))
	}
	for _, x := range []struct {
		k string
		v []BStageM
	}{{"tags", m.Tags}, {"branches", m.Branches}} {
		if len(x.v) == 0 {
			continue
		}
		s := nMap()
		for _, st := range x.v {
			s.add(st.Pattern, stageNode(st.Steps))
		}
		p.add(x.k, s)
	}
	n.add("pipelines", p)
	if len(m.Services) > 0 {
		s := nMap()
		for _, x := range m.Services {
			name := x.Name
			x.Name = ""
			s.add(name, x.node())
		}
		n.add("definitions", nMap().add("services", s))
	}
	return n
}

var refPatterns = []string{"master", "develop", "feature/*", "feature/foo", "release-*", "v*", "v1.?", "*", "hotfix/*", "feature/*-x", "v1.0", "?", "feature/f*", "*-rc"}
var refNames = []string{"master", "develop", "feature/foo", "feature/foo-x", "feature/bar", "release-1", "v1.0", "v1.10", "v2", "hotfix/a", "a", "main", "feature/a/b", "v1-rc", "release-1-rc"}

// globMatch matches * and ?, which do not match a slash.
func globMatch(p, s string) bool {
	if p == "" {
		return s == ""
	}
	switch p[0] {
	case '*':
		for i := 0; i <= len(s); i++ {
			if globMatch(p[1:], s[i:]) {
				return true
			}
			if i < len(s) && s[i] == '/' {
				return false
			}
		}
		return false
	case '?':
		return s != "" && s[0] != '/' && globMatch(p[1:], s[1:])
	}
	return s != "" && s[0] == p[0] && globMatch(p[1:], s[1:])
}

func genBitbucket(t *rapid.T) BitbucketM {
	o := optText()
	var m BitbucketM
	m.Image = maybe(t, 2, o.img)
	m.Depth = maybe(t, 4, func(t *rapid.T) int { return genCount(t, -1) })
	step := func(t *rapid.T) BStepM {
		if chance(t, 12) {
			return BStepM{Null: true}
		}
		return BStepM{Name: maybe(t, 2, o.text), Image: maybe(t, 2, o.img), Script: maybe(t, 1, texts(o, 3)), Vars: maybe(t, 8, func(t *rapid.T) []KV { return genKVs(t, 2, o.key, o.text) })}
	}
	steps := func(t *rapid.T) []BStepM { return listOf(t, 1, 3, step) }
	if !chance(t, 5) {
		m.Default = steps(t)
	}
	stages := func(t *rapid.T) (out []BStageM) {
		for _, p := range uniq(t, 4, func(t *rapid.T) string { return pick(t, append(refPatterns, refNames...)) }) {
			out = append(out, BStageM{p, steps(t)})
		}
		return
	}
	m.Tags, m.Branches = maybe(t, 2, stages), maybe(t, 2, stages)
	if chance(t, 3) {
		for _, name := range uniq(t, 3, func(t *rapid.T) string { return nonEmpty(t, o.key) }) {
			if name == "<<" {
				continue
			}
			s := step(t)
			s.Name = name
			m.Services = append(m.Services, s)
		}
	}
	return m
}

// references are the possible results: a pattern may be one of
// several that match.
func (m BitbucketM) references(ref string) (out []ManifestM) {
	var stages [][]BStepM
	find := func(list []BStageM, prefix string) {
		if len(stages) > 0 || !strings.HasPrefix(ref, prefix) && strings.HasPrefix(ref, "refs/") {
			return
		}
		name := strings.TrimPrefix(ref, prefix)
		for _, s := range list {
			if s.Pattern == name {
				stages = [][]BStepM{s.Steps}
				return
			}
		}
		for _, s := range list {
			if globMatch(s.Pattern, name) {
				stages = append(stages, s.Steps)
			}
		}
	}
	find(m.Tags, "refs/tags/")
	find(m.Branches, "refs/heads/")
	if len(stages) == 0 {
		stages = [][]BStepM{m.Default}
	}
	for _, steps := range stages {
		p := PipeM{Kind: "pipeline", Name: "default", Depth: m.Depth}
		i := 0
		for _, s := range steps {
			if s.Null {
				continue
			}
			x := StepM{Name: s.Name, Image: s.Image, Commands: s.Script}
			if x.Image == "" {
				x.Image = m.Image
			}
			if x.Name == "" {
				x.Name = fmt.Sprintf("step_%d", i)
			}
			i++
			p.Steps = append(p.Steps, x)
		}
		for _, s := range m.sortedServices() {
			p.Services = append(p.Services, StepM{Name: s.Name, Image: s.Image, Commands: s.Script})
		}
		out = append(out, ManifestM{R: []ResourceM{{Pipe: &p}}})
	}
	return
}

func (m BitbucketM) sortedServices() (out []BStepM) {
	for _, s := range m.Services {
		if s.Null {
			continue
		}
		i := len(out)
		for i > 0 && out[i-1].Name > s.Name {
			i--
		}
		out = append(out[:i], append([]BStepM{s}, out[i:]...)...)
	}
	return
}

// BitbucketCase is a configuration to be converted.
type BitbucketCase struct {
	M     BitbucketM `json:"m"`
	Ref   string     `json:"ref"`
	Style []int      `json:"style,omitempty"`
}

func genRef(t *rapid.T) string {
	return pick(t, []string{"refs/heads/", "refs/heads/", "refs/tags/", "refs/tags/", "refs/pull/", ""}) + pick(t, refNames)
}

func checkBitbucket(c *C, in BitbucketCase) *V {
	text, nodes := emitDocs([]*Node{in.M.node()}, in.Style, nil)
	if !agrees(text, nodes) {
		return c.Discard("the yaml parsers disagree on the file")
	}
	want := in.M.references(in.Ref)
	c.NonTrivialIf(want[0].steps() > 0)
	c.ClassIf(len(want) > 1, "several patterns match")
	c.ClassIf(len(in.M.Services) > 0, "services")
	c.ClassIf(len(in.M.Tags)+len(in.M.Branches) > 0, "pipelines for branches and tags")
	c.ClassIf(asJSON(want[0]) != asJSON(BitbucketM{Default: in.M.Default, Image: in.M.Image, Depth: in.M.Depth, Services: in.M.Services}.references(in.Ref)[0]), "not the default pipeline")
	out, err := bitbucket.Convert([]byte(text), in.Ref)
	if err != nil {
		return fail("the file is not converted: %v\n%s", err, text)
	}
	var first *V
	for _, w := range want {
		v := checkConverted(string(out), w, false, false)
		if v == nil {
			return nil
		}
		if first == nil {
			first = v
		}
	}
	first.Msg += "\nref: " + in.Ref + "\n---- the bitbucket file ----\n" + text
	return first
}

func init() {
	register(&Prop{ID: "C28", Title: "A gitlab pipeline is converted job by job",
		Assumptions: []string{"only, except, when, variables and the services of a job are not converted (marked as to be done in the code)", "every job has one of the stages", "jobs are not defined by merge keys at the top level", "the quoted text null is left out where the yaml library confuses it with a null value"},
		Subs: []Sub{sub("convert", "gitlab configurations with and without stages, templates with merge keys, images in both forms and common commands; the converted file is parsed and compared with a reference conversion; non-trivial: has a job", 40000, 800000, func(t *rapid.T) GitlabCase { return GitlabCase{genGitlab(t), genStyle(t)} }, checkGitlab).shards(8),
			sub("misuse", "gitlab configurations in which one value has a type that its attribute does not have must be rejected; non-trivial: always", 8000, 160000, genExtMisuse("gitlab"), checkExtMisuse).shards(4)}})
	register(&Prop{ID: "C29", Title: "A bitbucket pipeline is converted step by step",
		Assumptions: []string{"patterns are made of text, * and ?", "if several patterns match, any of them may be chosen", "steps in parallel, the options of steps other than name, image and script are not converted"},
		Subs: []Sub{sub("convert", "bitbucket configurations with pipelines for branches and tags, for refs that match their names and patterns or not; the converted file is parsed and compared with a reference conversion; non-trivial: the selected pipeline has a step", 40000, 800000, func(t *rapid.T) BitbucketCase { return BitbucketCase{genBitbucket(t), genRef(t), genStyle(t)} }, checkBitbucket).shards(8),
			sub("misuse", "bitbucket configurations in which one value has a type that its attribute does not have must be rejected; non-trivial: always", 8000, 160000, genExtMisuse("bitbucket"), checkExtMisuse).shards(4)}})
}

func asJSON(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		return fmt.Sprint(x)
	}
	return string(b)
}
