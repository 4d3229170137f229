package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// V is a violation of a property by one concrete case.
type V struct {
	Msg string
	// Key identifies the root cause, for the known findings.
	Key string
}

func fail(format string, args ...interface{}) *V {
	return &V{Msg: fmt.Sprintf(format, args...)}
}

func failKey(key, format string, args ...interface{}) *V {
	return &V{Msg: fmt.Sprintf(format, args...), Key: key}
}

// C collects what one check execution observed.
type C struct {
	nontrivial bool
	classes    []string
	skipped    string
	scratch    string // a scratch directory for this worker
	cli        string // path of the drone-yaml command, if built
	oss        bool   // the command is the open source build
}

// NonTrivial marks the case as non-trivial by the rule of the property.
func (c *C) NonTrivial() { c.nontrivial = true }

// NonTrivialIf marks the case as non-trivial if b.
func (c *C) NonTrivialIf(b bool) {
	if b {
		c.nontrivial = true
	}
}

// Class counts the case in a class.
func (c *C) Class(name string) { c.classes = append(c.classes, name) }

// ClassIf counts the case in a class if b.
func (c *C) ClassIf(b bool, name string) {
	if b {
		c.classes = append(c.classes, name)
	}
}

// Discard says the case is outside of the domain (the reason is counted).
func (c *C) Discard(reason string) *V { c.skipped = reason; return nil }

// Sub is one executable statement of a property.
type Sub struct {
	Name     string
	Rule     string
	Quick    int // number of generated cases
	Thor     int
	Shards   int // workers in the quick tier (thorough always uses more)
	NeedsCLI bool
	gen      func(*rapid.T) interface{}
	decode   func([]byte) (interface{}, error)
	check    func(*C, interface{}) *V
}

func sub[T any](name, rule string, quick, thor int, gen func(*rapid.T) T, check func(*C, T) *V) Sub {
	return Sub{
		Name: name, Rule: rule, Quick: quick, Thor: thor, Shards: 1,
		gen: func(t *rapid.T) interface{} { return gen(t) },
		decode: func(b []byte) (interface{}, error) {
			var v T
			err := json.Unmarshal(b, &v)
			return v, err
		},
		check: func(c *C, v interface{}) *V { return check(c, v.(T)) },
	}
}

func (s Sub) shards(n int) Sub { s.Shards = n; return s }
func (s Sub) cli() Sub         { s.NeedsCLI = true; return s }

// Prop is a property: a set of sub-properties.
type Prop struct {
	ID    string
	Title string
	// Race runs the workers under the race detector.
	Race        bool
	Assumptions []string
	Subs        []Sub
}

var registry []*Prop

func register(p *Prop) { registry = append(registry, p) }

func findProp(id string) *Prop {
	for _, p := range registry {
		if p.ID == id {
			return p
		}
	}
	return nil
}

func (p *Prop) sub(name string) *Sub {
	for i := range p.Subs {
		if p.Subs[i].Name == name {
			return &p.Subs[i]
		}
	}
	return nil
}

// Failure is a failing case, as saved in the replay file.
type Failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Key      string          `json:"key,omitempty"`
	Msg      string          `json:"msg"`
	Case     json.RawMessage `json:"case"`
}

// Result is the outcome of a worker.
type Result struct {
	Prop, Sub   string
	Evaluations int
	Discarded   map[string]int
	Known       map[string]int
	Hashes      []uint64
	Classes     map[string]int
	Samples     []json.RawMessage
	Failure     *Failure
	Error       string
	Hang        bool
	WallS       float64
}

func marshalCase(v interface{}) []byte {
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(v); err != nil {
		panic("harness: case is not serialisable: " + err.Error())
	}
	return bytes.TrimSpace(buf.Bytes())
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// runCheck runs one check and turns a panic of the code under
// test into a violation.
func runCheck(s *Sub, c *C, in interface{}) (v *V) {
	defer func() {
		if r := recover(); r != nil {
			stack := string(debug.Stack())
			msg := fmt.Sprint(r)
			if strings.HasPrefix(msg, "harness:") {
				panic(r)
			}
			v = fail("panic: %v\n%s", r, trimStack(stack))
		}
	}()
	return s.check(c, in)
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "drone-yaml") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// tbRec implements rapid.TB.
type tbRec struct {
	name   string
	failed bool
	logs   []string
}

func (t *tbRec) Helper()                           {}
func (t *tbRec) Name() string                      { return t.name }
func (t *tbRec) Logf(f string, a ...interface{})   { t.add(fmt.Sprintf(f, a...)) }
func (t *tbRec) Log(a ...interface{})              { t.add(fmt.Sprint(a...)) }
func (t *tbRec) Skipf(f string, a ...interface{})  { runtime.Goexit() }
func (t *tbRec) Skip(a ...interface{})             { runtime.Goexit() }
func (t *tbRec) SkipNow()                          { runtime.Goexit() }
func (t *tbRec) Errorf(f string, a ...interface{}) { t.add(fmt.Sprintf(f, a...)); t.failed = true }
func (t *tbRec) Error(a ...interface{})            { t.add(fmt.Sprint(a...)); t.failed = true }
func (t *tbRec) Fatalf(f string, a ...interface{}) {
	t.add(fmt.Sprintf(f, a...))
	t.failed = true
	runtime.Goexit()
}
func (t *tbRec) Fatal(a ...interface{}) { t.Fatalf("%s", fmt.Sprint(a...)) }
func (t *tbRec) FailNow()               { t.failed = true; runtime.Goexit() }
func (t *tbRec) Fail()                  { t.failed = true }
func (t *tbRec) Failed() bool           { return t.failed }
func (t *tbRec) add(s string) {
	if len(t.logs) < 50 {
		t.logs = append(t.logs, s)
	}
}

const caseTimeout = 40 * time.Second
const maxSamples = 4
const maxSampleLen = 6000

// worker runs n generated cases of one sub-property.
func worker(p *Prop, s *Sub, seed uint64, n int, out, journal, scratch, cli string, known map[string]bool) {
	debug.SetMaxStack(256 << 20)
	res := &Result{Prop: p.ID, Sub: s.Name, Discarded: map[string]int{}, Known: map[string]int{}, Classes: map[string]int{}}
	start := time.Now()
	write := func() {
		res.WallS = time.Since(start).Seconds()
		b, err := json.Marshal(res)
		if err == nil {
			err = os.WriteFile(out, b, 0644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(3)
		}
	}

	testing.Init()
	flag.CommandLine.Parse(nil)
	flag.Set("rapid.seed", fmt.Sprint(seed))
	flag.Set("rapid.checks", fmt.Sprint(n))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")

	// the watchdog writes the case that does not return.
	type current struct {
		at   time.Time
		blob []byte
	}
	cur := make(chan current, 1)
	done := make(chan struct{}, 1)
	go func() {
		for c := range cur {
			select {
			case <-done:
			case <-time.After(caseTimeout):
				res.Hang = true
				res.Failure = &Failure{Property: p.ID, Sub: s.Name, Msg: fmt.Sprintf("no result after %s", caseTimeout), Case: c.blob}
				write()
				os.Exit(5)
			}
		}
	}()

	seen := map[uint64]bool{}
	var failure *Failure
	tb := &tbRec{name: s.Name}
	fin := make(chan string, 1)
	go func() {
		msg := "goexit"
		defer func() {
			if r := recover(); r != nil {
				msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
			fin <- msg
		}()
		rapid.Check(tb, func(t *rapid.T) {
			in := s.gen(t)
			blob := marshalCase(in)
			if journal != "" {
				os.WriteFile(journal, blob, 0644)
			}
			// the check receives what a replay would: the
			// decoded case.
			dec, err := s.decode(blob)
			if err != nil {
				panic("harness: " + err.Error())
			}
			c := &C{scratch: scratch, cli: cli}
			cur <- current{time.Now(), blob}
			v := runCheck(s, c, dec)
			done <- struct{}{}
			res.Evaluations++
			if c.skipped != "" {
				res.Discarded[c.skipped]++
			}
			for _, cl := range c.classes {
				res.Classes[cl]++
			}
			if c.nontrivial && c.skipped == "" {
				h := hash64(blob)
				if !seen[h] {
					seen[h] = true
					if k := len(seen); len(res.Samples) < maxSamples && len(blob) < maxSampleLen && (k == 1 || k%(1+n/7) == 0) {
						res.Samples = append(res.Samples, blob)
					}
				}
			}
			if v != nil && v.Key != "" && known[v.Key] {
				res.Known[v.Key]++
				v = nil
			}
			if v != nil {
				if failure == nil || len(blob) <= len(failure.Case) {
					failure = &Failure{Property: p.ID, Sub: s.Name, Key: v.Key, Msg: v.Msg, Case: blob}
				}
				t.Fatalf("violation")
			}
		})
		msg = "ok"
	}()
	msg := <-fin
	for h := range seen {
		res.Hashes = append(res.Hashes, h)
	}
	sort.Slice(res.Hashes, func(i, j int) bool { return res.Hashes[i] < res.Hashes[j] })
	res.Failure = failure
	if failure == nil && (msg != "ok" || tb.failed) {
		res.Error = msg + " " + strings.Join(tb.logs, "\n")
	}
	write()
}

// replayOnce runs the check on a saved case.
func replayOnce(f *Failure, scratch, cli string) (*V, error) {
	p := findProp(f.Property)
	if p == nil {
		return nil, fmt.Errorf("unknown property %s", f.Property)
	}
	s := p.sub(f.Sub)
	if s == nil {
		return nil, fmt.Errorf("unknown sub-property %s", f.Sub)
	}
	in, err := s.decode(f.Case)
	if err != nil {
		return nil, err
	}
	return runCheck(s, &C{scratch: scratch, cli: cli}, in), nil
}
