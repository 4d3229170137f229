package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"pgregory.net/rapid"
)

// ---- C05: conditions ----

// GlobM is a pattern whose meaning is known: a list of path
// components.
type GlobM struct {
	Comps []CompM `json:"c"`
	// Bad is a malformed pattern, which matches nothing.
	Bad string `json:"bad,omitempty"`
}

// CompM is a path component.
type CompM struct {
	DS    bool    `json:"ds,omitempty"` // **
	Terms []TermM `json:"t,omitempty"`
}

// TermM is a part of a component.
type TermM struct {
	K    string   `json:"k"` // lit, esc, star, q, class, alt
	S    string   `json:"s,omitempty"`
	Neg  bool     `json:"neg,omitempty"`
	Alts []string `json:"alts,omitempty"`
}

// text is the pattern as a user writes it.
func (g GlobM) text() string {
	if g.Bad != "" {
		return g.Bad
	}
	var comps []string
	for _, c := range g.Comps {
		if c.DS {
			comps = append(comps, "**")
			continue
		}
		s := ""
		for _, t := range c.Terms {
			switch t.K {
			case "lit":
				s += t.S
			case "esc":
				s += "\\" + t.S
			case "star":
				s += "*"
			case "q":
				s += "?"
			case "class":
				if t.Neg {
					s += "[^" + t.S + "]"
				} else {
					s += "[" + t.S + "]"
				}
			case "alt":
				s += "{" + strings.Join(t.Alts, ",") + "}"
			}
		}
		comps = append(comps, s)
	}
	return strings.Join(comps, "/")
}

// regexp is the reference meaning of the pattern.
func (g GlobM) regexp() *regexp.Regexp {
	if g.Bad != "" {
		return nil
	}
	var b strings.Builder
	b.WriteString(`(?s)\A`)
	for i, c := range g.Comps {
		last := i == len(g.Comps)-1
		if c.DS {
			switch {
			case last && i == 0:
				b.WriteString(`.*`)
			case last:
				b.WriteString(`.+`)
			default:
				b.WriteString(`(?:[^/]*/)*`)
			}
			continue
		}
		for _, t := range c.Terms {
			switch t.K {
			case "lit", "esc":
				b.WriteString(regexp.QuoteMeta(t.S))
			case "star":
				b.WriteString(`[^/]*`)
			case "q":
				b.WriteString(`[^/]`)
			case "class":
				if t.Neg {
					b.WriteString("[^/" + t.S + "]")
				} else {
					b.WriteString("[" + t.S + "]")
				}
			case "alt":
				var alts []string
				for _, a := range t.Alts {
					alts = append(alts, regexp.QuoteMeta(a))
				}
				b.WriteString("(?:" + strings.Join(alts, "|") + ")")
			}
		}
		if !last {
			b.WriteString("/")
		}
	}
	b.WriteString(`\z`)
	return regexp.MustCompile(b.String())
}

func (g GlobM) match(v string) bool {
	re := g.regexp()
	return re != nil && re.MatchString(v)
}

var globWords = []string{"master", "develop", "feature", "release", "refs", "heads", "tags", "pull", "push", "tag", "octocat", "hello-world", "a", "b", "ab", "v1", "1.0", "production", "MASTER", "x y"}

func genComp(t *rapid.T) CompM {
	if chance(t, 6) {
		return CompM{DS: true}
	}
	if chance(t, 4) {
		return CompM{Terms: []TermM{{K: "star"}}}
	}
	return collapse(CompM{Terms: listOf(t, 1, 3, func(t *rapid.T) TermM {
		switch num(t, 0, 7) {
		case 4:
			return TermM{K: "star"}
		case 5:
			return TermM{K: "q"}
		case 6:
			return TermM{K: "class", S: pick(t, []string{"a-z", "0-9", "abm", "a-cx-z", "A-Z", "m"}), Neg: chance(t, 3)}
		case 7:
			if chance(t, 2) {
				return TermM{K: "alt", Alts: []string{pick(t, globWords), pick(t, globWords)}}
			}
			return TermM{K: "esc", S: pick(t, []string{"*", "?", "[", "{", "a"})}
		default:
			return TermM{K: "lit", S: pick(t, globWords)}
		}
	})})
}

// collapse removes a star that follows a star.
func collapse(c CompM) CompM {
	var out []TermM
	for _, x := range c.Terms {
		if n := len(out); n > 0 && x.K == "star" && out[n-1].K == "star" {
			continue
		}
		out = append(out, x)
	}
	return CompM{Terms: out}
}

func genGlob(t *rapid.T) GlobM {
	if chance(t, 15) {
		return GlobM{Bad: pick(t, []string{"[a", "[", "a[", "mas[ter"})}
	}
	if chance(t, 3) {
		// a literal.
		var g GlobM
		for i, n := 0, num(t, 1, 2); i < n; i++ {
			g.Comps = append(g.Comps, CompM{Terms: []TermM{{K: "lit", S: pick(t, globWords)}}})
		}
		return g
	}
	g := GlobM{Comps: listOf(t, 1, 4, genComp)}
	if chance(t, 4) {
		// the ** of the documentation: feature/**
		g.Comps = append(g.Comps, CompM{DS: true})
	}
	return g
}

// genMatching draws a value that the pattern matches, most of
// the time.
func (g GlobM) genMatching(t *rapid.T) string {
	var comps []string
	for _, c := range g.Comps {
		if c.DS {
			comps = append(comps, listOf(t, 0, 2, func(t *rapid.T) string { return pick(t, globWords) })...)
			continue
		}
		s := ""
		for _, x := range c.Terms {
			switch x.K {
			case "lit", "esc":
				s += x.S
			case "star":
				s += pick(t, append([]string{""}, globWords...))
			case "q":
				s += pick(t, []string{"a", "m", "-"})
			case "class":
				if x.Neg {
					s += pick(t, []string{"-", "!", "a", "5"})
				} else {
					s += pick(t, []string{x.S[:1], "z", "9", "m"})
				}
			case "alt":
				s += pick(t, x.Alts)
			}
		}
		comps = append(comps, s)
	}
	return strings.Join(comps, "/")
}

// goodValue: a value without empty components (the meaning of
// an empty component is left open), unless it is empty.
func goodValue(s string) bool {
	if s == "" {
		return true
	}
	for _, c := range strings.Split(s, "/") {
		if c == "" || strings.HasSuffix(c, "\\") {
			return false
		}
	}
	return true
}

// CondM is a condition of structured patterns.
type CondM struct {
	Inc []GlobM `json:"inc,omitempty"`
	Exc []GlobM `json:"exc,omitempty"`
}

func globTexts(gs []GlobM) []string {
	var out []string
	for _, g := range gs {
		out = append(out, g.text())
	}
	return out
}

func (c CondM) cond() Cond { return Cond{Inc: globTexts(c.Inc), Exc: globTexts(c.Exc)} }

func anyMatch(gs []GlobM, v string) bool {
	for _, g := range gs {
		if g.match(v) {
			return true
		}
	}
	return false
}

// match is the reference.
func (c CondM) match(v string) bool {
	if anyMatch(c.Exc, v) {
		return false
	}
	return len(c.Inc) == 0 || anyMatch(c.Inc, v)
}

func genCondM(t *rapid.T) CondM {
	switch num(t, 0, 4) {
	case 0, 1:
		return CondM{Inc: listOf(t, 1, 3, genGlob)}
	case 2:
		return CondM{Exc: listOf(t, 1, 3, genGlob)}
	case 3:
		return CondM{Inc: listOf(t, 1, 2, genGlob), Exc: listOf(t, 1, 2, genGlob)}
	default:
		return CondM{}
	}
}

func (c CondM) genValue(t *rapid.T) string {
	all := append(append([]GlobM{}, c.Inc...), c.Exc...)
	v := ""
	switch k := num(t, 0, 9); {
	case len(all) > 0 && k < 7:
		v = pick(t, all).genMatching(t)
		if chance(t, 4) {
			v = v + pick(t, []string{"x", "/x", "-"})
		}
		if chance(t, 8) {
			v = strings.ToUpper(v)
		}
		if chance(t, 6) {
			// almost the value: a longer or shorter path.
			v = pick(t, []string{"refs/heads/", "refs/tags/", "refs/", "origin/", "a/", "v", " "}) + v
		} else if i := strings.LastIndexByte(v, '/'); i >= 0 && chance(t, 6) {
			v = pick(t, []string{v[:i], v[i+1:], v[strings.IndexByte(v, '/')+1:], v + " "})
		}
	case k == 9:
		v = ""
	default:
		v = strings.Join(listOf(t, 1, 3, func(t *rapid.T) string { return pick(t, globWords) }), "/")
	}
	if !goodValue(v) {
		return "master"
	}
	return v
}

// literalGlob is the pattern that matches just v.
func literalGlob(v string) (g GlobM, ok bool) {
	if v == "" || strings.ContainsAny(v, `*?[{\`) {
		return g, false
	}
	for _, s := range strings.Split(v, "/") {
		g.Comps = append(g.Comps, CompM{Terms: []TermM{{K: "lit", S: s}}})
	}
	return g, true
}

// MatchCase is a condition and values.
type MatchCase struct {
	C CondM    `json:"c"`
	V []string `json:"v"`
}

func genMatch(t *rapid.T) MatchCase {
	c := genCondM(t)
	vs := listOf(t, 1, 4, c.genValue)
	if len(c.Inc) > 0 && chance(t, 3) {
		// an exception to what is included.
		if g, ok := literalGlob(vs[0]); ok {
			c.Exc = append(c.Exc, g)
		}
	}
	return MatchCase{c, vs}
}

func checkMatch(c *C, in MatchCase) *V {
	d := in.C.cond().drone()
	c.NonTrivialIf(len(in.C.Inc)+len(in.C.Exc) > 0)
	for _, v := range in.V {
		if v == "" && len(in.C.Inc)+len(in.C.Exc) > 0 && !emptyKnown(in.C) {
			continue
		}
		want := in.C.match(v)
		c.ClassIf(want, "match")
		c.ClassIf(!want, "no match")
		c.ClassIf(anyMatch(in.C.Exc, v) && anyMatch(in.C.Inc, v), "included and excluded")
		if got := d.Match(v); got != want {
			return fail("include %q exclude %q match %q: got %v, want %v", d.Include, d.Exclude, v, got, want)
		}
		if got, want := d.Includes(v), anyMatch(in.C.Inc, v); got != want {
			return fail("include %q includes %q: got %v, want %v", d.Include, v, got, want)
		}
		if got, want := d.Excludes(v), anyMatch(in.C.Exc, v); got != want {
			return fail("exclude %q excludes %q: got %v, want %v", d.Exclude, v, got, want)
		}
	}
	return nil
}

// emptyKnown says that the meaning of the patterns on an empty
// value is settled: literals and the lone * and **.
func emptyKnown(c CondM) bool {
	for _, g := range append(append([]GlobM{}, c.Inc...), c.Exc...) {
		if g.Bad != "" {
			return false
		}
		if len(g.Comps) == 1 && (g.Comps[0].DS || len(g.Comps[0].Terms) == 1 && g.Comps[0].Terms[0].K == "star") {
			continue
		}
		lit := false
		for _, x := range g.Comps {
			for _, y := range x.Terms {
				lit = lit || y.K == "lit"
			}
		}
		if !lit {
			return false
		}
	}
	return true
}

// ---- the when section, end to end ----

// WhenM holds a condition per name.
type WhenM struct {
	Branch   CondM `json:"branch,omitempty"`
	Cron     CondM `json:"cron,omitempty"`
	Event    CondM `json:"event,omitempty"`
	Instance CondM `json:"instance,omitempty"`
	Ref      CondM `json:"ref,omitempty"`
	Repo     CondM `json:"repo,omitempty"`
	Target   CondM `json:"target,omitempty"`
	Action   CondM `json:"action,omitempty"`
	// not evaluated by the compiler.
	Paths  CondM    `json:"paths,omitempty"`
	Status []string `json:"status,omitempty"`
	Matrix []KV     `json:"matrix,omitempty"`
}

func (w WhenM) when() When {
	return When{Branch: w.Branch.cond(), Cron: w.Cron.cond(), Event: w.Event.cond(), Instance: w.Instance.cond(), Ref: w.Ref.cond(),
		Repo: w.Repo.cond(), Target: w.Target.cond(), Action: w.Action.cond(), Paths: w.Paths.cond(), Status: Cond{Inc: w.Status}, Matrix: w.Matrix}
}

// SkipCase is a pipeline whose steps and services have
// conditions, and the build they are evaluated for.
type SkipCase struct {
	Steps    []WhenM           `json:"steps"`
	Services []WhenM           `json:"services,omitempty"`
	Data     map[string]string `json:"data"`
	Style    []int             `json:"style,omitempty"`
}

func (w *WhenM) evaluated(f func(name string, c *CondM)) {
	f("branch", &w.Branch)
	f("cron", &w.Cron)
	f("event", &w.Event)
	f("instance", &w.Instance)
	f("ref", &w.Ref)
	f("repo", &w.Repo)
	f("target", &w.Target)
	f("action", &w.Action)
}

func genSkip(t *rapid.T) SkipCase {
	data := map[string]string{}
	one := func(t *rapid.T) WhenM {
		var w WhenM
		w.evaluated(func(name string, c *CondM) {
			if !chance(t, 4) {
				return
			}
			*c = genCondM(t)
			if v, ok := data[name]; !ok {
				data[name] = c.genValue(t)
			} else if chance(t, 2) {
				// often a condition that holds.
				if g, ok := literalGlob(v); ok {
					c.Inc = append(c.Inc, g)
				}
			}
		})
		if chance(t, 4) {
			w.Paths = genCondM(t)
		}
		if chance(t, 4) {
			w.Status = []string{"success"}
		}
		if chance(t, 6) {
			w.Matrix = []KV{{"GO", "1.0"}}
		}
		return w
	}
	c := SkipCase{Data: data}
	c.Steps = listOf(t, 1, 3, one)
	c.Services = listOf(t, 0, 2, one)
	for _, name := range []string{"branch", "cron", "event", "instance", "ref", "repo", "target", "action"} {
		if _, ok := data[name]; !ok && chance(t, 2) {
			data[name] = pick(t, globWords)
		}
	}
	c.Style = genStyle(t)
	return c
}

func checkSkip(c *C, in SkipCase) *V {
	var m ManifestM
	p := PipeM{Kind: "pipeline", Name: "default", CloneOff: true}
	type want struct {
		skip bool
		why  []string
	}
	wants := map[string]want{}
	add := func(prefix string, i int, w WhenM) StepM {
		name := fmt.Sprintf("%s%d", prefix, i)
		x := want{}
		settled := true
		w.evaluated(func(n string, cm *CondM) {
			v := in.Data[n]
			if v == "" && len(cm.Inc)+len(cm.Exc) > 0 && !emptyKnown(*cm) {
				settled = false
			}
			if !cm.match(v) {
				x.skip = true
				x.why = append(x.why, n)
			}
		})
		if !settled {
			return StepM{Null: true}
		}
		wants[name] = x
		c.ClassIf(x.skip, "skipped")
		c.ClassIf(len(x.why) == 1, "skipped by a single condition")
		c.ClassIf(!x.skip, "not skipped")
		return StepM{Name: name, Image: "golang", Commands: []string{"go build"}, When: w.when()}
	}
	for i, w := range in.Steps {
		if s := add("step", i, w); !s.Null {
			p.Steps = append(p.Steps, s)
		}
	}
	for i, w := range in.Services {
		if s := add("service", i, w); !s.Null {
			p.Services = append(p.Services, s)
		}
	}
	if len(wants) == 0 {
		return c.Discard("conditions on empty values")
	}
	c.NonTrivial()
	m.R = []ResourceM{{Pipe: &p}}
	text, _ := m.emit(in.Style, nil)
	man, err := yaml.ParseString(text)
	if err != nil {
		return fail("rejected: %v\n%s", err, text)
	}
	d := in.Data
	skip := compiler.SkipFunc(compiler.SkipData{Branch: d["branch"], Cron: d["cron"], Event: d["event"], Instance: d["instance"],
		Ref: d["ref"], Repo: d["repo"], Target: d["target"], Action: d["action"]})
	pipe := man.Resources[0].(*yaml.Pipeline)
	for _, s := range append(append([]*yaml.Container{}, pipe.Steps...), pipe.Services...) {
		if got := skip(s); got != wants[s.Name].skip {
			return fail("SkipFunc(%s): got %v, want %v (conditions that do not hold: %v, data %v)\n%s", s.Name, got, wants[s.Name].skip, wants[s.Name].why, in.Data, text)
		}
	}
	spec := (&compiler.Compiler{SkipFunc: skip}).Compile(pipe)
	for _, s := range spec.Steps {
		w, ok := wants[s.Metadata.Name]
		if !ok {
			return fail("unexpected step %q", s.Metadata.Name)
		}
		if got := s.RunPolicy == engine.RunNever; got != w.skip {
			return fail("step %s never runs: got %v, want %v (%v)\n%s", s.Metadata.Name, got, w.skip, w.why, text)
		}
	}
	// without the function nothing is skipped.
	spec = (&compiler.Compiler{}).Compile(pipe)
	for _, s := range spec.Steps {
		if s.RunPolicy == engine.RunNever {
			return fail("step %s never runs, without a skip function\n%s", s.Metadata.Name, text)
		}
	}
	return nil
}

// ---- invalid conditions ----

// BadCondCase is a condition of the wrong type.
type BadCondCase struct {
	Name    string `json:"name"`
	Bad     int    `json:"bad"`
	Trigger bool   `json:"trigger,omitempty"`
	Style   []int  `json:"style,omitempty"`
}

func badConds() []*Node {
	return []*Node{
		nList(nMap().add("include", nStr("a"))),
		nList(nList(nStr("a"))),
		nMap().add("include", nMap().add("a", nStr("b"))),
		nMap().add("exclude", nMap().add("a", nStr("b"))),
		nMap().add("include", nList(nMap().add("a", nStr("b")))),
		nMap().add("exclude", nList(nList(nStr("a")))),
		nMap().add("include", nStr("a")).add("exclude", nMap().add("b", nStr("c"))),
	}
}

func checkBadCond(c *C, in BadCondCase) *V {
	c.NonTrivial()
	w := nMap().add(in.Name, badConds()[in.Bad])
	p := nMap().add("kind", nStr("pipeline")).add("name", nStr("default"))
	s := nMap().add("name", nStr("build")).add("image", nStr("golang"))
	if in.Trigger {
		p.add("trigger", w)
	} else {
		s.add("when", w)
	}
	p.add("steps", nList(s))
	text, _ := emitDocs([]*Node{p}, in.Style, nil)
	m, err := yaml.ParseString(text)
	if err != nil {
		return nil
	}
	return fail("the condition %q is invalid, and is read as %s\n%s", in.Name, marshalCase(m.Resources[0]), text)
}

func init() {
	register(&Prop{ID: "C05", Title: "conditions select exactly the steps they describe",
		Assumptions: []string{"the meaning of patterns and values with empty path components, and of non-ASCII text behind a * (the glob dependency steps by bytes), is left open"},
		Subs: []Sub{
			sub("match", "structured glob patterns (literals, *, ?, classes, **, alternatives, escapes, malformed) against values derived from them; the reference is a regular expression; non-trivial: at least one pattern", 8000, 400000, genMatch, checkMatch).shards(4),
			sub("skip", "pipelines written as yaml whose steps and services have when sections, compiled with SkipFunc for a build; non-trivial: at least one container is decided", 3000, 120000, genSkip, checkSkip).shards(4),
			sub("invalid", "conditions of the wrong type must be rejected, as they would match everything; non-trivial: always", 600, 10000, func(t *rapid.T) BadCondCase {
				return BadCondCase{Name: pick(t, []string{"branch", "cron", "event", "instance", "ref", "repo", "target", "action", "status", "paths"}),
					Bad: num(t, 0, len(badConds())-1), Trigger: chance(t, 3), Style: genStyle(t)}
			}, checkBadCond),
		}})
}
