package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func main() {
	args := os.Args[1:]
	if len(args) == 0 {
		die("usage: vh run|worker|replay|list")
	}
	opts := map[string]string{}
	var pos []string
	for i := 1; i < len(args); i++ {
		if strings.HasPrefix(args[i], "--") && i+1 < len(args) {
			opts[args[i][2:]] = args[i+1]
			i++
		} else {
			pos = append(pos, args[i])
		}
	}
	switch args[0] {
	case "list":
		for _, p := range registry {
			fmt.Println(p.ID, p.Title)
		}
	case "subs":
		for _, p := range registry {
			for _, s := range p.Subs {
				fmt.Println(p.ID, s.Name, s.NeedsCLI)
			}
		}
	case "one":
		parseStdin()
	case "uids":
		printUIDs(opts)
	case "needscli":
		p := findProp(pos[0])
		if p == nil {
			die("unknown property")
		}
		for _, s := range p.Subs {
			if s.NeedsCLI && p.ID == "C21" {
				fmt.Println("./alone")
				return
			}
			if s.NeedsCLI && p.ID == "C34" {
				fmt.Println("-tags oss github.com/drone/drone-yaml")
				return
			}
			if s.NeedsCLI {
				fmt.Println("github.com/drone/drone-yaml")
				return
			}
		}
		fmt.Println("no")
	case "needsrace":
		if p := findProp(pos[0]); p != nil && p.Race {
			fmt.Println("yes")
		} else {
			fmt.Println("no")
		}
	case "worker":
		p := findProp(opts["prop"])
		if p == nil {
			die("unknown property")
		}
		s := p.sub(opts["sub"])
		if s == nil {
			die("unknown sub-property")
		}
		seed, _ := strconv.ParseUint(opts["seed"], 10, 64)
		n, _ := strconv.Atoi(opts["n"])
		known := map[string]bool{}
		for _, k := range strings.Split(opts["known"], "\x1f") {
			if k != "" {
				known[k] = true
			}
		}
		worker(p, s, seed, n, opts["out"], opts["journal"], opts["scratch"], opts["cli"], known)
	case "replay":
		os.Exit(replayMain(pos[0], opts))
	case "run":
		os.Exit(run(opts))
	default:
		die("unknown command")
	}
}

func die(msg string) {
	fmt.Fprintln(os.Stderr, "harness:", msg)
	os.Exit(3)
}

func replayMain(path string, opts map[string]string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die(err.Error())
	}
	f := new(Failure)
	if err := json.Unmarshal(b, f); err != nil {
		die(err.Error())
	}
	tries := 1
	if v, err := strconv.Atoi(opts["tries"]); err == nil {
		tries = v
	}
	for i := 0; i < tries; i++ {
		v, err := replayOnce(f, opts["scratch"], opts["cli"])
		if err != nil {
			die(err.Error())
		}
		if v != nil {
			fmt.Printf("REPRODUCED property=%s sub=%s key=%q\n%s\n", f.Property, f.Sub, v.Key, v.Msg)
			return 1
		}
	}
	fmt.Printf("NOT-REPRODUCED property=%s sub=%s\n", f.Property, f.Sub)
	return 0
}

// Known is an entry of the known findings file.
type Known struct {
	Status   string          `json:"status"` // known, fixed
	Property string          `json:"property"`
	Sub      string          `json:"sub,omitempty"`
	Key      string          `json:"key,omitempty"`
	What     string          `json:"what"`
	Case     json.RawMessage `json:"case,omitempty"`
	Line     string          `json:"line,omitempty"`
}

func loadKnown(path string) []Known {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		die(err.Error())
	}
	var out []Known
	for i, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var k Known
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			die(fmt.Sprintf("%s line %d: %v", path, i+1, err))
		}
		out = append(out, k)
	}
	return out
}

type job struct {
	sub   *Sub
	seed  uint64
	n     int
	shard int
}

func run(opts map[string]string) int {
	start := time.Now()
	p := findProp(opts["prop"])
	if p == nil {
		die("unknown property " + opts["prop"])
	}
	tier := opts["tier"]
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(opts["seed"], 10, 64)
	root := opts["root"]
	work := opts["work"]
	scale := 1.0
	if v, err := strconv.ParseFloat(opts["scale"], 64); err == nil {
		scale = v
	}
	self, err := os.Executable()
	if err != nil {
		die(err.Error())
	}

	knownKeys := map[string]bool{}
	var known []Known
	for _, k := range loadKnown(filepath.Join(root, "known_findings.jsonl")) {
		if k.Property == p.ID && k.Status == "known" {
			known = append(known, k)
			knownKeys[k.Key] = true
		}
	}
	var keys []string
	for k := range knownKeys {
		keys = append(keys, k)
	}
	sort.Strings(keys)

	var jobs []job
	for i := range p.Subs {
		s := &p.Subs[i]
		if only := opts["sub"]; only != "" && only != s.Name {
			continue
		}
		n, shards := s.Quick, s.Shards
		if tier == "thorough" {
			n, shards = s.Thor, 8
		}
		n = int(float64(n) * scale)
		if shards > n {
			shards = 1
		}
		for k := 0; k < shards; k++ {
			h := hash64([]byte(fmt.Sprintf("%s/%s/%d/%d", p.ID, s.Name, k, seed)))
			if h == 0 {
				h = 1
			}
			per := n / shards
			if k < n%shards {
				per++
			}
			if per == 0 {
				continue
			}
			jobs = append(jobs, job{s, h, per, k})
		}
	}

	results := make([]*Result, len(jobs))
	errs := make([]string, len(jobs))
	sem := make(chan struct{}, maxInt(2, runtime.NumCPU()))
	var wg sync.WaitGroup
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			results[i], errs[i] = runJob(self, p, jobs[i], work, opts["cli"], keys, i)
		}(i)
	}
	wg.Wait()

	// merge.
	cov := newCoverage(p)
	var failures []*Failure
	var problems []string
	for i, r := range results {
		if errs[i] != "" {
			problems = append(problems, jobs[i].sub.Name+": "+errs[i])
			continue
		}
		cov.add(jobs[i].sub, r)
		if r.Failure != nil {
			failures = append(failures, r.Failure)
		}
		if r.Error != "" {
			problems = append(problems, r.Sub+": "+r.Error)
		}
	}

	// a hang must reproduce in a fresh process.
	hung := false
	var confirmed []*Failure
	for i, f := range failures {
		if !strings.HasPrefix(f.Msg, "no result after") {
			confirmed = append(confirmed, f)
			continue
		}
		if hung {
			continue // one is enough
		}
		path := filepath.Join(work, fmt.Sprintf("hang-%d.json", i))
		writeJSON(path, f)
		cmd := exec.Command(self, "replay", "--scratch", work, "--cli", opts["cli"], path)
		cmd.Start()
		ended := make(chan error, 1)
		go func() { ended <- cmd.Wait() }()
		select {
		case <-ended:
			// the machine was busy. The cases of the shard that
			// were not run are not counted in the evidence.
			fmt.Fprintf(os.Stderr, "harness: %s: slow, %s\n", f.Sub, f.Msg)
		case <-time.After(90 * time.Second):
			cmd.Process.Kill()
			hung = true
			f.Msg = "does not return (no result after 90s, reproduced twice)"
			confirmed = append(confirmed, f)
		}
	}
	failures = confirmed

	// known findings.
	knownSeen := []string{}
	for _, k := range known {
		f := &Failure{Property: k.Property, Sub: k.Sub, Case: k.Case}
		v, err := replayOnce(f, work, opts["cli"])
		if err != nil {
			problems = append(problems, "known finding: "+err.Error())
			continue
		}
		switch {
		case v != nil && v.Key == k.Key:
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
			knownSeen = append(knownSeen, k.What)
		case v != nil:
			f.Msg, f.Key = v.Msg, v.Key
			failures = append(failures, f)
		}
	}

	// saved regression cases: the shrunk failures of the past.
	regs, _ := filepath.Glob(filepath.Join(root, "regressions", p.ID, "*.json"))
	sort.Strings(regs)
	if opts["sub"] == "" {
		for _, path := range regs {
			b, err := os.ReadFile(path)
			if err != nil {
				problems = append(problems, err.Error())
				continue
			}
			f := new(Failure)
			if err := json.Unmarshal(b, f); err != nil {
				problems = append(problems, path+": "+err.Error())
				continue
			}
			if s := p.sub(f.Sub); s == nil {
				problems = append(problems, path+": unknown sub "+f.Sub)
				continue
			} else if s.NeedsCLI && opts["cli"] == "" {
				continue
			}
			cov.regressions++
			var buf bytes.Buffer
			cmd := exec.Command(self, "replay", "--scratch", work, "--cli", opts["cli"], "--tries", "3", path)
			cmd.Stdout = &buf
			cmd.Stderr = &buf
			cmd.Env = append(os.Environ(), raceEnv)
			timer := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
			cmd.Run()
			timer.Stop()
			code := cmd.ProcessState.ExitCode()
			text := buf.String()
			fatal := isFatal(text)
			switch {
			case code == 0:
			case code == 1 && strings.HasPrefix(text, "REPRODUCED"), fatal:
				f.Msg, f.Key = "saved regression case fails: "+text, "regression:"+filepath.Base(path)
				failures = append(failures, f)
			default:
				problems = append(problems, path+": "+text)
			}
		}
	}

	seenFail := map[string]bool{}
	for _, f := range failures {
		id := f.Sub + "/" + f.Key
		if seenFail[id] {
			continue
		}
		seenFail[id] = true
		dir := filepath.Join(root, "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", p.ID, f.Sub, hash64(f.Case)))
		writeJSON(path, f)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		fmt.Printf("  sub-property: %s\n  %s\n  case: %s\n", f.Sub, strings.Replace(clip(f.Msg, 3000), "\n", "\n  ", -1), clip(string(f.Case), 2000))
	}

	if opts["sub"] == "" {
		ev := cov.evidence(p, tier, seed, time.Since(start).Seconds(), len(failures), knownSeen)
		os.MkdirAll(filepath.Join(root, "evidence"), 0755)
		writeJSON(filepath.Join(root, "evidence", p.ID+".json"), ev)
	}
	if opts["stats"] != "" {
		cov.print()
	}
	for _, s := range problems {
		fmt.Fprintln(os.Stderr, "harness: problem:", clip(s, 3000))
	}
	fmt.Printf("%s %s: %d evaluations, %d distinct non-trivial, %d violations, %.1fs\n", p.ID, tier, cov.evals, cov.distinct(), len(failures), time.Since(start).Seconds())
	if len(failures) > 0 {
		return 1
	}
	if len(problems) > 0 {
		return 2
	}
	return 0
}

// runJob runs a worker process. If the worker dies, for instance
// on a stack overflow, it is run again with a journal.
func runJob(self string, p *Prop, j job, work, cli string, known []string, idx int) (*Result, string) {
	out := filepath.Join(work, fmt.Sprintf("out-%d.json", idx))
	journal := ""
	procs := "GOMAXPROCS=2"
	if p.Race {
		// a report names the case that was running.
		journal = filepath.Join(work, fmt.Sprintf("journal-%d.json", idx))
		procs = "GOMAXPROCS=4"
	}
	var stderr bytes.Buffer
	for attempt := 0; attempt < 2; attempt++ {
		os.Remove(out)
		scratch := filepath.Join(work, fmt.Sprintf("w%d", idx))
		os.MkdirAll(scratch, 0755)
		stderr.Reset()
		cmd := exec.Command(self, "worker", "--prop", p.ID, "--sub", j.sub.Name, "--seed", fmt.Sprint(j.seed),
			"--n", fmt.Sprint(j.n), "--out", out, "--scratch", scratch, "--cli", cli,
			"--known", strings.Join(known, "\x1f"), "--journal", journal)
		cmd.Stderr = &stderr
		cmd.Env = append(os.Environ(), procs, raceEnv)
		err := cmd.Run()
		if b, rerr := os.ReadFile(out); rerr == nil {
			r := new(Result)
			if jerr := json.Unmarshal(b, r); jerr == nil {
				return r, ""
			}
		}
		if attempt == 0 && !strings.Contains(stderr.String(), raceReport) {
			journal = filepath.Join(work, fmt.Sprintf("journal-%d.json", idx))
			continue
		}
		text := stderr.String()
		b, rerr := os.ReadFile(journal)
		fatal := isFatal(text)
		if rerr == nil && fatal && strings.Contains(text, "drone-yaml") {
			return &Result{Prop: p.ID, Sub: j.sub.Name, Evaluations: 1, Failure: &Failure{
				Property: p.ID, Sub: j.sub.Name, Msg: "the process dies: " + clip(text, 1500), Case: b}}, ""
		}
		return nil, fmt.Sprintf("worker died: %v: %s", err, clip(text, 2000))
	}
	return nil, "unreachable"
}

const (
	raceReport = "WARNING: DATA RACE"
	raceEnv    = "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0"
)

// isFatal says that the process was ended by the runtime.
func isFatal(text string) bool {
	for _, s := range []string{"stack overflow", "fatal error: concurrent map", "goroutine stack exceeds", raceReport} {
		if strings.Contains(text, s) {
			return true
		}
	}
	return false
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

func writeJSON(path string, v interface{}) {
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	if err := enc.Encode(v); err != nil {
		die(err.Error())
	}
	if err := os.WriteFile(path, buf.Bytes(), 0644); err != nil {
		die(err.Error())
	}
}

type coverage struct {
	evals       int
	regressions int
	hashes      map[string]map[uint64]bool
	perSub      map[string]*Result
	order       []string
	rules       map[string]string
}

func newCoverage(p *Prop) *coverage {
	return &coverage{hashes: map[string]map[uint64]bool{}, perSub: map[string]*Result{}, rules: map[string]string{}}
}

func (c *coverage) add(s *Sub, r *Result) {
	c.evals += r.Evaluations
	m := c.perSub[s.Name]
	if m == nil {
		m = &Result{Sub: s.Name, Discarded: map[string]int{}, Known: map[string]int{}, Classes: map[string]int{}}
		c.perSub[s.Name] = m
		c.hashes[s.Name] = map[uint64]bool{}
		c.order = append(c.order, s.Name)
		c.rules[s.Name] = s.Rule
	}
	m.Evaluations += r.Evaluations
	for k, v := range r.Discarded {
		m.Discarded[k] += v
	}
	for k, v := range r.Known {
		m.Known[k] += v
	}
	for k, v := range r.Classes {
		m.Classes[k] += v
	}
	for _, h := range r.Hashes {
		c.hashes[s.Name][h] = true
	}
	if len(m.Samples) < maxSamples {
		m.Samples = append(m.Samples, r.Samples...)
	}
}

func (c *coverage) distinct() int {
	n := 0
	for _, h := range c.hashes {
		n += len(h)
	}
	return n
}

func (c *coverage) print() {
	for _, name := range c.order {
		r := c.perSub[name]
		fmt.Printf("  %-28s %7d cases %7d distinct non-trivial", name, r.Evaluations, len(c.hashes[name]))
		if len(r.Discarded) > 0 {
			fmt.Printf(" discarded %v", r.Discarded)
		}
		if len(r.Known) > 0 {
			fmt.Printf(" known %v", r.Known)
		}
		fmt.Println()
		var ks []string
		for k := range r.Classes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("      %-40s %6d (%.1f%%)\n", k, r.Classes[k], 100*float64(r.Classes[k])/float64(r.Evaluations))
		}
	}
}

func (c *coverage) evidence(p *Prop, tier string, seed int64, wall float64, violations int, known []string) map[string]interface{} {
	samples := []interface{}{}
	subs := []interface{}{}
	var rules []string
	for _, name := range c.order {
		r := c.perSub[name]
		for i, s := range r.Samples {
			if i >= maxSamples {
				break
			}
			samples = append(samples, map[string]interface{}{"sub": name, "case": s})
		}
		rules = append(rules, name+": "+c.rules[name])
		e := map[string]interface{}{
			"name":                name,
			"evaluations":         r.Evaluations,
			"distinct_nontrivial": len(c.hashes[name]),
			"classes":             r.Classes,
		}
		if len(r.Discarded) > 0 {
			e["discarded"] = r.Discarded
		}
		if len(r.Known) > 0 {
			e["excluded_known_findings"] = r.Known
		}
		subs = append(subs, e)
	}
	cov := map[string]interface{}{
		"evaluations":          c.evals,
		"distinct_nontrivial":  c.distinct(),
		"rule":                 strings.Join(rules, " | "),
		"samples":              samples,
		"sub_properties":       subs,
		"regressions_replayed": c.regressions,
	}
	if len(known) > 0 {
		cov["known_findings"] = known
	}
	return map[string]interface{}{
		"property":    p.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": append([]string{"cases are drawn by pgregory.net/rapid from the seed; absence of a violation is evidence, not proof"}, p.Assumptions...),
		"wall_s":      wall,
		"violations":  violations,
	}
}
