package main

import (
	"encoding/base64"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/compiler/transform"
	"pgregory.net/rapid"
)

// ---- C15: secrets and credentials ----

// SecretCase is a pipeline whose secrets and credentials carry
// marks that appear nowhere else.
type SecretCase struct {
	C       CompCase `json:"c"`
	Known   []string `json:"known"`  // secrets that exist
	Static  bool     `json:"static"` // all secrets are given, not looked up
	Filter  []string `json:"filter,omitempty"`
	Include bool     `json:"include,omitempty"`
	Earlier bool     `json:"earlier,omitempty"` // used for another pipeline before
}

func secretMark(name string) string { return fmt.Sprintf("MARK-%016x-SECRET", hash64([]byte(name))) }

const credsMark = "MARK-GIT-CREDENTIALS"

func genSecretCase(t *rapid.T) SecretCase {
	c := SecretCase{C: genCompWith(optValid)(t), Earlier: chance(t, 2)}
	pool := []string{"token", "password", "Token", "docker_password", "a", "b", "git-credentials", ""}
	var names []string
	for _, s := range containersOf(&c.C.P) {
		if s.Build == nil && chance(t, 2) {
			s.Env = nil
			for _, k := range uniq(t, 3, envName) {
				e := EnvM{K: k, Secret: pick(t, pool)}
				if e.Secret == "" {
					e.V = "plain"
				}
				s.Env = append(s.Env, e)
			}
		}
		if s.Build == nil && chance(t, 3) {
			s.Settings = append(s.Settings, SetM{K: "zz_token", Secret: pick(t, pool[:6])})
		}
		names = append(names, s.Name)
	}
	if cs := containersOf(&c.C.P); len(cs) > 0 && chance(t, 4) {
		// a step that has the name of the credentials file.
		s := pick(t, cs)
		ok := true
		for _, n := range names {
			if n == ".git-credentials" {
				ok = false
			}
		}
		for _, x := range cs {
			if inList(s.Name, x.DependsOn) {
				ok = false
			}
		}
		if ok {
			s.Name = ".git-credentials"
			if s.Build == nil && len(s.Commands) == 0 {
				s.Commands = []string{"make"}
			}
		}
	}
	c.C.Creds = "https://x:" + credsMark + "@github.com\n"
	c.C.Plain = false
	for _, n := range pool {
		if n != "" && !chance(t, 3) {
			c.Known = append(c.Known, n)
		}
	}
	c.Static = chance(t, 3)
	if len(names) > 0 && chance(t, 3) {
		c.Filter = listOf(t, 1, 2, func(t *rapid.T) string { return pick(t, names) })
		c.Include = chance(t, 2)
	}
	return c
}

func checkSecrets(c *C, in SecretCase) *V {
	forms, text, v := in.C.forms()
	if v != nil {
		return v
	}
	model := in.C.reference()
	for _, p := range forms {
		asked := map[string]int{}
		comp := in.C.compiler()
		var fns []func(*engine.Spec)
		switch {
		case in.Filter != nil && in.Include:
			fns = append(fns, transform.Include(in.Filter))
		case in.Filter != nil:
			fns = append(fns, transform.Exclude(in.Filter))
		}
		if in.Static {
			m := map[string]string{}
			for _, n := range in.Known {
				m[n] = secretMark(n)
			}
			fns = append(fns, transform.WithSecrets(m))
		} else {
			fns = append(fns, transform.WithSecretFunc(func(name string) *engine.Secret {
				asked[name]++
				if !inList(name, in.Known) {
					return nil
				}
				return &engine.Secret{Metadata: engine.Metadata{Name: name}, Data: secretMark(name)}
			}))
		}
		comp.TransformFunc = transform.Combine(fns...)
		// the functions have been used for another pipeline,
		// which asks for all secrets.
		ever := map[string]int{}
		if in.Earlier {
			other := &yaml.Container{Name: "clone", Image: "a", Environment: map[string]*yaml.Variable{"A": {Secret: "earlier"}}}
			for _, n := range in.Known {
				other.Environment["B"+n] = &yaml.Variable{Secret: n}
			}
			comp.Compile(&yaml.Pipeline{Name: "earlier", Clone: yaml.Clone{Disable: true}, Steps: []*yaml.Container{other}})
			ever, asked = asked, map[string]int{}
			c.Class("after another pipeline")
		}
		spec := comp.Compile(p)
		// the secrets that the steps that can run ask for.
		want := map[string]bool{}
		for _, s := range model.Steps {
			policy := s.RunPolicy
			if in.Filter != nil && s.Name != "clone" && inList(s.Name, in.Filter) != in.Include {
				policy = "never"
			}
			if policy == "never" {
				continue
			}
			for _, x := range s.Secrets {
				want[x[strings.Index(x, "=")+1:]] = true
			}
		}
		if !in.Static {
			for n := range asked {
				if !want[n] {
					return fail("the secret %q is looked up, and no step that can run asks for it\n%s", n, text)
				}
			}
			for n := range want {
				if asked[n]+ever[n] == 0 {
					return fail("the secret %q is not looked up\n%s", n, text)
				}
			}
		}
		c.ClassIf(len(want) > 0, "secrets are used")
		have := map[string]int{}
		for _, s := range spec.Secrets {
			have[s.Metadata.Name]++
			if s.Data != secretMark(s.Metadata.Name) {
				return fail("the secret %q has the data of another one\n%s", s.Metadata.Name, text)
			}
			if have[s.Metadata.Name] > 1 {
				return fail("the secret %q is defined twice\n%s", s.Metadata.Name, text)
			}
			if s.Metadata.Namespace != spec.Metadata.Namespace || s.Metadata.UID == "" {
				return fail("the secret %q has namespace %q and id %q", s.Metadata.Name, s.Metadata.Namespace, s.Metadata.UID)
			}
		}
		for _, n := range in.Known {
			if (in.Static || want[n]) != (have[n] > 0) {
				return fail("the secret %q: defined %v, wanted %v\n%s", n, have[n] > 0, want[n], text)
			}
		}
		for n := range have {
			if !inList(n, in.Known) {
				return fail("the secret %q does not exist, and is defined", n)
			}
		}
		// the data is nowhere else.
		for i, s := range spec.Steps {
			if len(model.Steps) <= i || model.Steps[i].Name != s.Metadata.Name {
				return fail("the steps differ from the pipeline")
			}
			var got []string
			for _, x := range s.Secrets {
				got = append(got, x.Env+"="+x.Name)
			}
			sort.Strings(got)
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", model.Steps[i].Secrets) {
				return fail("step %q gets the secrets %q, and asks for %q\n%s", s.Metadata.Name, got, model.Steps[i].Secrets, text)
			}
			for k, v := range canon(s) {
				if strings.Contains(v, "MARK-") {
					return fail("step %q holds secret data at %s: %s\n%s", s.Metadata.Name, k, clip(v, 300), text)
				}
			}
			creds := 0
			for _, f := range s.Files {
				file, ok := engine.LookupFile(spec, f.Name)
				if !ok {
					return fail("step %q mounts the file %q, which is not defined\n%s", s.Metadata.Name, f.Name, text)
				}
				if strings.Contains(string(file.Data), credsMark) {
					creds++
					if s.Metadata.Name != "clone" || in.C.P.CloneOff {
						return fail("step %q gets the git credentials\n%s", s.Metadata.Name, text)
					}
					if f.Path != "/root/.git-credentials" || string(file.Data) != in.C.Creds {
						return fail("the git credentials are mounted at %q with %q", f.Path, file.Data)
					}
				} else if strings.Contains(string(file.Data), "MARK-") {
					return fail("the script of step %q holds secret data\n%s", s.Metadata.Name, text)
				}
			}
			if s.Metadata.Name == "clone" && !in.C.P.CloneOff {
				c.Class("clone step")
				if creds != 1 {
					return fail("the clone step mounts the git credentials %d times", creds)
				}
			}
		}
		for _, f := range spec.Files {
			if in.C.P.CloneOff && strings.Contains(string(f.Data), credsMark) {
				return fail("the git credentials are part of a pipeline that does not clone\n%s", text)
			}
		}
		if strings.Contains(fmt.Sprint(canon(spec.Docker), canon(spec.Metadata)), "MARK-") {
			return fail("volumes, auths or labels hold secret data")
		}
		c.NonTrivialIf(len(want) > 0 || !in.C.P.CloneOff)
	}
	return nil
}

// ---- C16: references and identifiers ----

var reUID = regexp.MustCompile(`\A[a-z0-9]{32}\z`)

// RefCase is a pipeline, with what a caller adds.
type RefCase struct {
	C       CompCase `json:"c"`
	Secrets []string `json:"secrets,omitempty"`
	Volumes []KV     `json:"volumes,omitempty"`
	Labels  []KV     `json:"labels,omitempty"`
}

func genRefCase(t *rapid.T) RefCase {
	c := RefCase{C: genCompWith(optValid)(t)}
	// the volumes have names of their own.
	seen := map[string]bool{}
	for i := range c.C.P.Volumes {
		v := &c.C.P.Volumes[i]
		for n := 0; seen[v.Name]; n++ {
			v.Name = fmt.Sprintf("%s%d", v.Name, n)
		}
		seen[v.Name] = true
	}
	c.Secrets = uniq(t, 3, safeIdent)
	c.Volumes = genKVs(t, 2, absPath, absPath)
	c.Labels = genKVs(t, 2, safeIdent, safeIdent)
	return c
}

// ProcCase is a number of processes that compile at the same time.
type ProcCase struct {
	Procs    int  `json:"procs"`
	Compiles int  `json:"compiles"`
	Parallel int  `json:"parallel"`
	Steps    int  `json:"steps"`
	Again    bool `json:"again,omitempty"` // one after the other
}

func genProcCase(t *rapid.T) ProcCase {
	return ProcCase{Procs: num(t, 2, 5), Compiles: num(t, 1, 20), Parallel: num(t, 1, 4), Steps: num(t, 1, 4), Again: chance(t, 3)}
}

// printUIDs compiles a pipeline and prints its identifiers, in a
// process of its own.
func printUIDs(opts map[string]string) {
	get := func(k string) int { n, _ := strconv.Atoi(opts[k]); return n }
	p := &yaml.Pipeline{Kind: "pipeline", Name: "default"}
	for i := 0; i < get("steps"); i++ {
		p.Steps = append(p.Steps, &yaml.Container{Name: fmt.Sprint("s", i), Image: "golang", Commands: []string{"go test"}})
	}
	out := make([][]string, get("parallel"))
	var wg sync.WaitGroup
	for g := range out {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < get("compiles"); i++ {
				spec := new(compiler.Compiler).Compile(p)
				out[g] = append(out[g], spec.Metadata.UID)
				for _, x := range spec.Steps {
					out[g] = append(out[g], x.Metadata.UID)
				}
				for _, x := range spec.Files {
					out[g] = append(out[g], x.Metadata.UID)
				}
				for _, x := range spec.Docker.Volumes {
					out[g] = append(out[g], x.Metadata.UID)
				}
			}
		}(g)
	}
	wg.Wait()
	for _, l := range out {
		for _, x := range l {
			fmt.Println(x)
		}
	}
}

func checkProcs(c *C, in ProcCase) *V {
	self, err := os.Executable()
	if err != nil {
		return fail("no executable: %v", err)
	}
	outs := make([][]byte, in.Procs)
	errs := make([]error, in.Procs)
	run := func(i int) {
		outs[i], errs[i] = exec.Command(self, "uids", "--compiles", fmt.Sprint(in.Compiles), "--parallel", fmt.Sprint(in.Parallel), "--steps", fmt.Sprint(in.Steps)).Output()
	}
	var wg sync.WaitGroup
	for i := range outs {
		if in.Again {
			run(i)
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			run(i)
		}(i)
	}
	wg.Wait()
	seen := map[string]int{}
	for i, out := range outs {
		if errs[i] != nil {
			c.Discard("process did not run")
			return nil
		}
		ids := strings.Fields(string(out))
		if want := in.Compiles * in.Parallel * (3 + 2*in.Steps); len(ids) != want {
			return fail("a process prints %d identifiers, want %d", len(ids), want)
		}
		for _, x := range ids {
			if k, ok := seen[x]; ok {
				return fail("the processes %d and %d both use the identifier %q", k, i, x)
			}
			if !reUID.MatchString(x) {
				return fail("the identifier is %q", x)
			}
			seen[x] = i
		}
	}
	c.NonTrivialIf(true)
	c.ClassIf(!in.Again, "at the same time")
	return nil
}

func checkRefs(c *C, in RefCase) *V {
	forms, text, v := in.C.forms()
	if v != nil {
		return v
	}
	c.NonTrivialIf(len(containersOf(&in.C.P)) > 0)
	seen := map[string]string{}
	declared := map[string]bool{}
	for _, x := range in.C.P.Volumes {
		if !x.Null {
			declared[x.Name] = true
		}
	}
	mentioned := map[string]bool{}
	for _, s := range containersOf(&in.C.P) {
		for _, m := range s.Volumes {
			if !declared[m.Name] {
				mentioned[m.Name] = true
			}
		}
	}
	delete(mentioned, "workspace")
	delete(mentioned, "_docker_socket")
	// the same pipeline twice: nothing is shared.
	forms = append(forms, forms[0])
	for _, p := range forms {
		comp := in.C.compiler()
		m := map[string]string{}
		for _, n := range in.Secrets {
			m[n] = "x"
		}
		comp.TransformFunc = transform.Combine(transform.WithSecrets(m), transform.WithVolumes(kvMap(in.Volumes)), transform.WithLables(kvMap(in.Labels)))
		spec := comp.Compile(p)
		add := func(what, uid string) *V {
			if !reUID.MatchString(uid) {
				return fail("%s has the identifier %q\n%s", what, uid, text)
			}
			if other, ok := seen[uid]; ok {
				return fail("%s and %s have the same identifier %q\n%s", what, other, uid, text)
			}
			seen[uid] = what
			return nil
		}
		ns := spec.Metadata.Namespace
		if spec.Metadata.UID != ns || spec.Metadata.Name != ns {
			return fail("the pipeline has id %q, name %q and namespace %q", spec.Metadata.UID, spec.Metadata.Name, ns)
		}
		if v := add("the pipeline", ns); v != nil {
			return v
		}
		labels := func(what string, have map[string]string) *V {
			for _, kv := range in.Labels {
				if have[kv.K] != kv.V {
					return fail("%s lacks the label %s=%s", what, kv.K, kv.V)
				}
			}
			return nil
		}
		if v := labels("the pipeline", spec.Metadata.Labels); v != nil {
			return v
		}
		volumes := map[string]int{}
		for _, x := range spec.Docker.Volumes {
			what := fmt.Sprintf("volume %q", x.Metadata.Name)
			if v := add(what, x.Metadata.UID); v != nil {
				return v
			}
			if x.Metadata.Namespace != ns {
				return fail("%s has the namespace %q", what, x.Metadata.Namespace)
			}
			if v := labels(what, x.Metadata.Labels); v != nil {
				return v
			}
			volumes[x.Metadata.Name]++
			if volumes[x.Metadata.Name] > 1 {
				return fail("%s is defined twice\n%s", what, text)
			}
		}
		files := map[string]int{}
		for _, x := range spec.Files {
			what := fmt.Sprintf("file %q", x.Metadata.Name)
			if v := add(what, x.Metadata.UID); v != nil {
				return v
			}
			if x.Metadata.Namespace != ns {
				return fail("%s has the namespace %q", what, x.Metadata.Namespace)
			}
			files[x.Metadata.Name]++
			if files[x.Metadata.Name] > 1 {
				return fail("%s is defined twice\n%s", what, text)
			}
		}
		for _, x := range spec.Secrets {
			if v := add(fmt.Sprintf("secret %q", x.Metadata.Name), x.Metadata.UID); v != nil {
				return v
			}
			if x.Metadata.Namespace != ns {
				return fail("secret %q has the namespace %q", x.Metadata.Name, x.Metadata.Namespace)
			}
		}
		names := map[string]bool{}
		for _, s := range spec.Steps {
			if names[s.Metadata.Name] {
				return fail("two steps have the name %q", s.Metadata.Name)
			}
			names[s.Metadata.Name] = true
		}
		used := map[string]bool{}
		for _, s := range spec.Steps {
			what := fmt.Sprintf("step %q", s.Metadata.Name)
			if v := add(what, s.Metadata.UID); v != nil {
				return v
			}
			if s.Metadata.Namespace != ns {
				return fail("%s has the namespace %q", what, s.Metadata.Namespace)
			}
			if v := labels(what, s.Metadata.Labels); v != nil {
				return v
			}
			if s.Metadata.Labels["io.drone.step.name"] != s.Metadata.Name && !labelled(in.Labels, "io.drone.step.name") {
				return fail("%s has the labels %q", what, s.Metadata.Labels)
			}
			for _, d := range s.DependsOn {
				if !names[d] {
					return fail("%s depends on %q, which does not exist\n%s", what, d, text)
				}
			}
			for _, f := range s.Files {
				if files[f.Name] != 1 {
					return fail("%s mounts the file %q, which is defined %d times\n%s", what, f.Name, files[f.Name], text)
				}
				used[f.Name] = true
			}
			for _, m := range s.Volumes {
				if volumes[m.Name] == 0 && !mentioned[m.Name] {
					return fail("%s mounts the volume %q, which is not defined\n%s", what, m.Name, text)
				}
			}
		}
		for n := range files {
			if !used[n] {
				return fail("file %q is defined and not mounted\n%s", n, text)
			}
		}
	}
	return nil
}

func labelled(kvs []KV, k string) bool {
	for _, kv := range kvs {
		if kv.K == k {
			return true
		}
	}
	return false
}

// ---- C20: privileged plugins ----

// PrivCase is a container and a whitelist.
type PrivCase struct {
	S    StepM    `json:"s"`
	List []string `json:"list"`
}

func genPrivCase(t *rapid.T) PrivCase {
	c := PrivCase{List: listOf(t, 0, 3, image)}
	c.S = genStep(t, optValid(), nil)
	c.S.Image = image(t)
	c.S.Command, c.S.Commands, c.S.Entrypoint = nil, nil, nil
	if chance(t, 4) {
		c.S.Commands = listOf(t, 1, 2, anyText)
	}
	if chance(t, 6) {
		c.S.Command = listOf(t, 1, 2, anyText)
	}
	if chance(t, 6) {
		c.S.Entrypoint = listOf(t, 1, 2, anyText)
	}
	if len(c.List) > 0 && !chance(t, 3) {
		c.S.Image = respell(t, pick(t, c.List))
	}
	if chance(t, 6) {
		c.List = append(c.List, respell(t, c.S.Image))
	}
	return c
}

func checkPriv(c *C, in PrivCase) *V {
	d := in.S.drone()
	if d == nil {
		return c.Discard("null step")
	}
	want := dindAllowed(&in.S, in.List)
	c.ClassIf(want, "privileged")
	match := false
	for _, x := range in.List {
		match = match || refTrim(x) == refTrim(in.S.Image)
	}
	c.NonTrivialIf(match)
	if got := compiler.DindFunc(in.List)(d); got != want {
		return fail("image %q, commands %q %q %q, whitelist %q: privileged %v, want %v", in.S.Image, in.S.Commands, in.S.Command, in.S.Entrypoint, in.List, got, want)
	}
	return nil
}

func genPrivPipe(t *rapid.T) CompCase {
	c := genCompWith(optValid)(t)
	c.Plain = false
	c.Dind = nil
	for _, s := range containersOf(&c.P) {
		if s.Build == nil && chance(t, 2) {
			c.Dind = append(c.Dind, respell(t, s.Image))
		}
		if chance(t, 2) {
			s.Commands, s.Command, s.Entrypoint = nil, nil, nil
		}
	}
	return c
}

func checkPrivPipe(c *C, in CompCase) *V {
	n := 0
	for _, s := range containersOf(&in.P) {
		if dindAllowed(s, in.Dind) {
			n++
		}
	}
	c.NonTrivialIf(n > 0)
	return in.compileWith(c, func(s *RSpec) {
		*s = RSpec{Steps: s.Steps}
		for i, x := range s.Steps {
			s.Steps[i] = RStep{Name: x.Name, Privileged: x.Privileged}
		}
	})
}

// ---- C23: settings ----

func genSettingsCase(t *rapid.T) CompCase {
	o := optValid()
	o.text = anyText
	o.nulls = true
	var s StepM
	s.Name, s.Image = "a", "plugins/docker"
	s.Settings = genSettings(t, o)
	if chance(t, 3) {
		s.Settings = append(s.Settings, SetM{K: "deep_value", V: genVal(t, o, 5)})
	}
	if chance(t, 2) {
		s.Settings = append(s.Settings, SetM{K: "tag-list", V: Val{K: "l", L: listOf(t, 0, 4, func(t *rapid.T) Val { return genVal(t, o, 0) })}})
	}
	for i := range s.Settings {
		if x := &s.Settings[i]; x.V.K == "n" {
			*x = SetM{K: x.K, Null: true}
		} else if x.V.K == "s" {
			x.V.S = noNull(x.V.S)
		}
	}
	finite(&s)
	var other StepM
	other.Name, other.Image = "b", "plugins/slack"
	return CompCase{P: PipeM{Kind: "pipeline", Name: "default", CloneOff: true, OS: pick(t, osPool), Steps: []StepM{s, other}}, Style: genStyle(t)}
}

func checkSettings(c *C, in CompCase) *V {
	for _, s := range in.P.Steps {
		for _, x := range s.Settings {
			c.NonTrivialIf(!x.Null)
			c.ClassIf(x.V.K == "l", "list")
			c.ClassIf(x.V.K == "m", "map")
			c.ClassIf(x.V.K == "l" && x.V.text().JSON, "list of lists or maps")
			c.ClassIf(x.Secret != "", "secret")
		}
	}
	// binary data, which a yaml file cannot hold.
	for _, x := range in.P.Steps[0].Settings {
		data := []byte(x.V.S + x.V.F + x.K)
		p := &yaml.Pipeline{Name: "default", Steps: []*yaml.Container{{Name: "a", Image: "b", Settings: map[string]*yaml.Parameter{"k": {Value: data}}}}}
		p.Clone.Disable = true
		spec := new(compiler.Compiler).Compile(p)
		if got, want := spec.Steps[0].Envs["PLUGIN_K"], base64.StdEncoding.EncodeToString(data); got != want {
			return fail("the binary setting %q is encoded as %q, want %q", data, got, want)
		}
	}
	return in.compileWith(c, func(s *RSpec) {
		*s = RSpec{Steps: s.Steps}
		for i, x := range s.Steps {
			r := RStep{Name: x.Name, Secrets: x.Secrets, Env: map[string]Text{}}
			for k, v := range x.Env {
				if strings.HasPrefix(k, "PLUGIN_") {
					r.Env[k] = v
				}
			}
			s.Steps[i] = r
		}
	})
}

// ---- C24: purity ----

// PureCase is a history of compilations.
type PureCase struct {
	Cases    []CompCase `json:"cases"`
	Ops      []int      `json:"ops"`
	Parallel int        `json:"parallel"`
	// Cold says that the parallel compilations come first.
	Cold  bool     `json:"cold,omitempty"`
	Extra []string `json:"extra,omitempty"`
	// One says that one compiler compiles all of them.
	One bool `json:"one,omitempty"`
}

func genPure(t *rapid.T) PureCase {
	c := PureCase{Cases: listOf(t, 1, 3, genCompWith(optValid))}
	for i := range c.Cases {
		// text that no other case has: nothing is known about it
		// from earlier compilations.
		salt := rapid.StringMatching(`[a-z]{8}`).Draw(t, "salt")
		c.Cases[i].P.Name += salt
		steps := c.Cases[i].P.Steps
		for j := range c.Cases[i].P.Services {
			// services with dependencies, too.
			if s := &c.Cases[i].P.Services[j]; !s.Null && chance(t, 3) {
				s.DependsOn = listOf(t, 1, 3, safeIdent)
			}
		}
		for _, list := range [][]StepM{steps, c.Cases[i].P.Services} {
			for j := range list {
				s := &list[j]
				if s.Null || chance(t, 2) {
					continue
				}
				s.Pull += salt
				if s.Build == nil {
					s.Image = fmt.Sprintf("%s%d:%s", salt, j, salt)
				}
				s.User += salt
				if len(s.Commands) > 0 {
					s.Commands[0] = "echo " + salt
				}
			}
		}
	}
	c.Ops = listOf(t, 2, 6, func(t *rapid.T) int { return num(t, 0, len(c.Cases)-1) })
	c.Parallel = num(t, 0, 4)
	c.Cold = chance(t, 2)
	c.Extra = listOf(t, 0, 2, safeIdent)
	c.One = chance(t, 2)
	if c.One {
		for i := range c.Cases {
			x := c.Cases[0]
			x.P, x.Style = c.Cases[i].P, c.Cases[i].Style
			c.Cases[i] = x
		}
	}
	// an image that one pipeline builds, and another one pulls.
	if k := len(c.Cases); k > 1 && chance(t, 2) {
		a, b := num(t, 0, k-1), num(t, 0, k-1)
		built, used := c.Cases[a].P.Steps, c.Cases[b].P.Steps
		if a != b && len(built) > 0 && len(used) > 0 {
			x, y := &built[num(t, 0, len(built)-1)], &used[num(t, 0, len(used)-1)]
			if !x.Null && !y.Null && x.Build != nil && y.Build == nil && x.Build.Image != "" {
				y.Image = x.Build.Image
			}
		}
	}
	return c
}

// shared are transforms that a caller makes once. The arguments
// have room to grow, that is of no concern to the transforms.
func (in *PureCase) shared() []func(*engine.Spec) {
	env := map[string]string{}
	nets := make([]string, 0, 16)
	auths := make([]*engine.DockerAuth, 0, 16)
	for _, x := range in.Extra {
		env[x] = "x"
		nets = append(nets, x)
		auths = append(auths, &engine.DockerAuth{Address: x})
	}
	return []func(*engine.Spec){
		transform.WithAuths(auths), transform.WithAuthsFunc(func() []*engine.DockerAuth { return auths }),
		transform.WithEnviron(env), transform.WithLables(env), transform.WithNetworks(nets), transform.WithLimits(int64(len(in.Extra)), 1),
		transform.WithNetrc("m", "u", strings.Join(in.Extra, "")), transform.WithSecrets(env), transform.WithVolumes(env), transform.Exclude(nets)}
}

// transformed is the compiler of one operation: the shared
// transforms, and ones that tell the operation from others.
func (in *PureCase) transformed(i int, shared []func(*engine.Spec), tag string) *compiler.Compiler {
	comp := in.Cases[i].compiler()
	m := map[string]string{"TAG": tag}
	if in.One {
		comp.TransformFunc = transform.Combine(shared...)
		return comp
	}
	comp.TransformFunc = transform.Combine(append(append([]func(*engine.Spec){}, shared...),
		transform.WithNetworks([]string{tag}), transform.WithAuths([]*engine.DockerAuth{{Address: tag}}),
		transform.WithEnviron(m), transform.WithLables(m), transform.WithSecrets(m))...)
	return comp
}

// fingerprint is the compiled pipeline without identifiers.
func fingerprint(spec *engine.Spec) (map[string]string, *V) {
	got, v := observe(spec)
	if v != nil {
		return nil, v
	}
	// the mounts of added volumes have random names.
	for i := range got.Steps {
		for j := range got.Steps[i].Volumes {
			if reUID.MatchString(got.Steps[i].Volumes[j].Name) {
				got.Steps[i].Volumes[j].Name = "random"
			}
		}
		sort.Slice(got.Steps[i].Volumes, func(a, b int) bool {
			return fmt.Sprint(got.Steps[i].Volumes[a]) < fmt.Sprint(got.Steps[i].Volumes[b])
		})
	}
	for i := range got.Volumes {
		if n := strings.Index(got.Volumes[i], " "); n == 32 {
			got.Volumes[i] = "random" + got.Volumes[i][n:]
		}
	}
	sort.Strings(got.Volumes)
	return canon(got), nil
}

func checkPure(c *C, in PureCase) *V {
	type subject struct {
		pipe  *yaml.Pipeline
		shape map[string]string
	}
	var subjects []*subject
	for i := range in.Cases {
		forms, _, v := in.Cases[i].forms()
		if v != nil {
			return v
		}
		p := forms[len(forms)-1]
		subjects = append(subjects, &subject{pipe: p, shape: canon(p)})
	}
	shared := in.shared()
	one := in.transformed(0, shared, "")
	compiler := func(i int, tag string) *compiler.Compiler {
		if in.One {
			return one
		}
		return in.transformed(i, shared, tag)
	}
	c.NonTrivialIf(len(in.Ops) > 1)
	c.ClassIf(in.One, "one compiler")
	c.ClassIf(in.Parallel > 1, "parallel")
	c.ClassIf(in.Parallel > 1 && in.Cold, "parallel first")
	type outcome struct {
		i    int
		tag  string
		when string
		spec *engine.Spec
	}
	var all []outcome
	// the result is the one of a fresh compiler with fresh
	// arguments, and a fresh copy of the pipeline.
	verify := func(o outcome, what string) *V {
		got, v := fingerprint(o.spec)
		if v != nil {
			return v
		}
		forms, _, v := in.Cases[o.i].forms()
		if v != nil {
			return v
		}
		want, v := fingerprint(in.transformed(o.i, in.shared(), o.tag).Compile(forms[len(forms)-1]))
		if v != nil {
			return v
		}
		if d := diff(got, want); d != "" {
			return fail("%s %s, the compiled pipeline %d differs: %s", o.when, what, o.i, d)
		}
		return nil
	}
	sequential := func() *V {
		for n, i := range in.Ops {
			tag := fmt.Sprintf("op%d", n)
			o := outcome{i, tag, fmt.Sprintf("compilation %d", n), compiler(i, tag).Compile(subjects[i].pipe)}
			if v := verify(o, "right away"); v != nil {
				return v
			}
			all = append(all, o)
			for k, o := range subjects {
				if d := diff(canon(o.pipe), o.shape); d != "" {
					return fail("compiling pipeline %d changes pipeline %d: %s", i, k, d)
				}
			}
		}
		return nil
	}
	parallel := func() *V {
		if in.Parallel < 2 {
			return nil
		}
		var wg sync.WaitGroup
		out := make([]*V, in.Parallel)
		done := make([][]outcome, in.Parallel)
		start := make(chan struct{})
		for g := 0; g < in.Parallel; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						out[g] = fail("panic in a parallel compilation: %v", r)
					}
				}()
				<-start
				for n := range in.Ops {
					i := in.Ops[(n+g)%len(in.Ops)]
					tag := fmt.Sprintf("par%d-%d", g, n)
					done[g] = append(done[g], outcome{i, tag, "parallel compilation " + tag, compiler(i, tag).Compile(subjects[i].pipe)})
				}
			}(g)
		}
		close(start)
		wg.Wait()
		for g := range out {
			if out[g] != nil {
				return out[g]
			}
			all = append(all, done[g]...)
		}
		return nil
	}
	phases := []func() *V{sequential, parallel}
	if in.Cold {
		phases = []func() *V{parallel, sequential}
	}
	for _, f := range phases {
		if v := f(); v != nil {
			return v
		}
	}
	// the results are still what they were.
	for _, o := range all {
		if v := verify(o, "in the end"); v != nil {
			return v
		}
	}
	return nil
}

// ---- C25: transforms ----

// TransCase is a compiled pipeline and transforms to apply.
type TransCase struct {
	C   CompCase `json:"c"`
	Fns []TransM `json:"fns"`
}

// TransM is one transform.
type TransM struct {
	Kind string `json:"kind"`
	KV   []KV   `json:"kv,omitempty"`
	L    []string
	A    int64
	B    int64
}

var proxyNames = []string{"no_proxy", "NO_PROXY", "http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY"}

var transKinds = []string{"env", "labels", "limits", "netrc", "networks", "auths", "authsfunc", "secrets", "volumes", "volumeslice", "include", "exclude", "resume", "proxy"}

func genTrans(names []string) func(t *rapid.T) TransM {
	return func(t *rapid.T) TransM {
		f := TransM{Kind: pick(t, transKinds)}
		switch f.Kind {
		case "env":
			f.KV = genKVs(t, 3, envName, anyText)
		case "labels", "secrets":
			f.KV = genKVs(t, 3, safeIdent, anyText)
		case "limits":
			f.A, f.B = int64(num(t, 0, 3)*1000), int64(num(t, 0, 3)*100)
		case "proxy":
			for _, k := range proxyNames {
				if chance(t, 2) {
					f.KV = append(f.KV, KV{k, pick(t, []string{"http://" + k + ".proxy:3128", "localhost," + k, ""})})
				}
			}
		case "netrc":
			f.L = []string{pick(t, []string{"github.com", ""}), pick(t, []string{"octocat", "", "a b"}), pick(t, []string{"correct-horse", "", "$x"})}
		case "networks":
			f.L = listOf(t, 0, 3, safeIdent)
		case "auths", "authsfunc":
			f.KV = genKVs(t, 3, goodImage, anyText)
		case "volumes":
			f.KV = genKVs(t, 2, absPath, absPath)
		case "volumeslice":
			f.L = listOf(t, 0, 3, func(t *rapid.T) string {
				return pick(t, []string{"/a:/b", "/a:/c", "/x", "", "/a:/b:ro", ":", "/d:/e", "a:b"})
			})
		default:
			f.L = listOf(t, 0, 2, func(t *rapid.T) string {
				if len(names) == 0 || chance(t, 5) {
					return pick(t, []string{"clone", "nope", ""})
				}
				return pick(t, names)
			})
		}
		return f
	}
}

// fn is the transform, and a check that the options of the
// caller are as they were.
func (f TransM) fn() (func(*engine.Spec), func() *V) {
	m := kvMap(f.KV)
	if m == nil {
		m = map[string]string{}
	}
	auths := make([]*engine.DockerAuth, 0, len(f.KV)+2)
	for _, kv := range f.KV {
		auths = append(auths, &engine.DockerAuth{Address: kv.K, Username: "u", Password: kv.V})
	}
	l := append(make([]string, 0, len(f.L)+2), f.L...)
	had, hadAuths := cloneLabels(m), len(auths)
	fn := f.transform(m, l, auths)
	return fn, func() *V {
		if !reflect.DeepEqual(m, had) {
			return fail("the options of %s are %q, and were %q", f.Kind, m, had)
		}
		if d := same(l, append([]string{}, f.L...)); d != "" {
			return fail("the options of %s are changed: %s", f.Kind, d)
		}
		if more := l[len(l):cap(l)]; strings.Join(more, "") != "" {
			return fail("the options of %s are followed by %q", f.Kind, more)
		}
		for _, a := range auths[len(auths):cap(auths)] {
			if a != nil {
				return fail("the credentials of %s are followed by those of %q", f.Kind, a.Address)
			}
		}
		for i, kv := range f.KV {
			if hadAuths != len(f.KV) {
				break
			}
			if *auths[i] != (engine.DockerAuth{Address: kv.K, Username: "u", Password: kv.V}) {
				return fail("the credentials of %s are changed", kv.K)
			}
		}
		return nil
	}
}

func (f TransM) transform(m map[string]string, l []string, auths []*engine.DockerAuth) func(*engine.Spec) {
	switch f.Kind {
	case "env":
		return transform.WithEnviron(m)
	case "labels":
		return transform.WithLables(m)
	case "limits":
		return transform.WithLimits(f.A, f.B)
	case "proxy":
		// the options are in the environment of the process.
		for _, kv := range f.KV {
			os.Setenv(kv.K, kv.V)
			defer os.Unsetenv(kv.K)
		}
		return transform.WithProxy()
	case "netrc":
		return transform.WithNetrc(f.L[0], f.L[1], f.L[2])
	case "networks":
		return transform.WithNetworks(l)
	case "auths":
		return transform.WithAuths(auths)
	case "authsfunc":
		return transform.WithAuthsFunc(func() []*engine.DockerAuth { return auths })
	case "secrets":
		return transform.WithSecrets(m)
	case "volumes":
		return transform.WithVolumes(m)
	case "volumeslice":
		return transform.WithVolumeSlice(l)
	case "include":
		return transform.Include(l)
	case "exclude":
		return transform.Exclude(l)
	}
	name := ""
	if len(f.L) > 0 {
		name = f.L[0]
	}
	return transform.ResumeAt(name)
}

// reference of a transform, on the observed pipeline.
func (f TransM) apply(s *RSpec) {
	setEnv := func(k, v string) {
		for i := range s.Steps {
			s.Steps[i].Env[k] = Text{S: v}
		}
	}
	addVolumes := func(kvs []KV) {
		for _, kv := range kvs {
			s.Volumes = append(s.Volumes, "random path="+kv.K)
			for i := range s.Steps {
				s.Steps[i].Volumes = append(s.Steps[i].Volumes, MountM{Name: "random", Path: kv.V})
			}
		}
	}
	off := func(b func(string) bool) {
		for i := range s.Steps {
			if s.Steps[i].Name != "clone" && b(s.Steps[i].Name) {
				s.Steps[i].RunPolicy = "never"
			}
		}
	}
	switch f.Kind {
	case "env":
		for _, kv := range f.KV {
			setEnv(kv.K, kv.V)
		}
	case "labels":
		for _, kv := range f.KV {
			s.Labels[kv.K] = kv.V
			for i := range s.Steps {
				s.Steps[i].Labels[kv.K] = kv.V
			}
		}
	case "proxy":
		m := kvMap(f.KV)
		for _, k := range []string{"no_proxy", "http_proxy", "https_proxy"} {
			v := m[strings.ToUpper(k)]
			if v == "" {
				v = m[k]
			}
			if v != "" {
				setEnv(k, v)
				setEnv(strings.ToUpper(k), v)
			}
		}
	case "limits":
		if f.A == 0 && f.B == 0 {
			return
		}
		for i := range s.Steps {
			r := &engine.Resources{Limits: &engine.ResourceObject{Memory: f.A, CPU: f.B}}
			if o := s.Steps[i].Resources; o != nil {
				r.Requests = o.Requests
			}
			s.Steps[i].Resources = r
		}
	case "netrc":
		if f.L[1] == "" || f.L[2] == "" {
			return
		}
		for _, pre := range []string{"CI_", "DRONE_"} {
			setEnv(pre+"NETRC_MACHINE", f.L[0])
			setEnv(pre+"NETRC_USERNAME", f.L[1])
			setEnv(pre+"NETRC_PASSWORD", f.L[2])
		}
	case "networks":
		for i := range s.Steps {
			s.Steps[i].Networks = append(append([]string(nil), s.Steps[i].Networks...), f.L...)
		}
	case "auths", "authsfunc":
		for _, kv := range f.KV {
			s.Auths = append(s.Auths, fmt.Sprintf("%s %s %s", kv.K, "u", kv.V))
		}
	case "secrets":
		for _, kv := range f.KV {
			s.Secrets = append(s.Secrets, kv.K+"="+kv.V)
		}
	case "volumes":
		addVolumes(f.KV)
	case "volumeslice":
		m := map[string]string{}
		for _, x := range f.L {
			if parts := strings.Split(x, ":"); len(parts) == 2 {
				m[parts[0]] = parts[1]
			}
		}
		var kvs []KV
		for k, v := range m {
			kvs = append(kvs, KV{k, v})
		}
		addVolumes(kvs)
	case "include":
		if len(f.L) > 0 {
			off(func(n string) bool { return !inList(n, f.L) })
		}
	case "exclude":
		off(func(n string) bool { return inList(n, f.L) })
	default:
		if len(f.L) == 0 || f.L[0] == "" {
			return
		}
		at := len(s.Steps)
		for i := range s.Steps {
			if s.Steps[i].Name == f.L[0] {
				at = i
				break
			}
		}
		for i := 0; i < at; i++ {
			if s.Steps[i].Name != "clone" {
				s.Steps[i].RunPolicy = "never"
			}
		}
	}
}

// observeSorted is observe with the order removed that a map
// decides, and the random names.
func observeSorted(spec *engine.Spec) (RSpec, *V) {
	got, v := observe(spec)
	if v != nil {
		return got, v
	}
	for i := range got.Steps {
		for j := range got.Steps[i].Volumes {
			if reUID.MatchString(got.Steps[i].Volumes[j].Name) {
				got.Steps[i].Volumes[j].Name = "random"
			}
		}
		for j, f := range got.Steps[i].Files {
			got.Steps[i].Files[j] = f
		}
	}
	for i := range got.Volumes {
		if n := strings.Index(got.Volumes[i], " "); n == 32 {
			got.Volumes[i] = "random" + got.Volumes[i][n:]
		}
	}
	got.tidy()
	return got, nil
}

func (s *RSpec) tidy() {
	sort.Strings(s.Volumes)
	sort.Strings(s.Secrets)
	for i := range s.Steps {
		vs := s.Steps[i].Volumes
		sort.SliceStable(vs, func(a, b int) bool { return fmt.Sprint(vs[a]) < fmt.Sprint(vs[b]) })
	}
}

func cloneLabels(m map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func genTransCase(t *rapid.T) TransCase {
	c := TransCase{C: genCompWith(optValid)(t)}
	var names []string
	for _, s := range containersOf(&c.C.P) {
		names = append(names, s.Name)
	}
	c.Fns = listOf(t, 1, 4, genTrans(names))
	c.C.Style = nil
	return c
}

func checkTrans(c *C, in TransCase) *V {
	c.NonTrivialIf(len(containersOf(&in.C.P)) > 0)
	c.ClassIf(len(in.Fns) > 1, "combined")
	var fns []func(*engine.Spec)
	var intact []func() *V
	for _, f := range in.Fns {
		fn, unchanged := f.fn()
		fns = append(fns, fn)
		intact = append(intact, unchanged)
		c.Class(f.Kind)
	}
	pipe := in.C.P.drone()
	comp := in.C.compiler()
	base := comp.Compile(pipe)
	want, v := observeSorted(base)
	if v != nil {
		return v
	}
	// the reference works on copies.
	want.Labels = cloneLabels(want.Labels)
	for i := range want.Steps {
		want.Steps[i].Labels = cloneLabels(want.Steps[i].Labels)
	}
	for _, f := range in.Fns {
		f.apply(&want)
	}
	want.tidy()
	compare := func(what string, spec *engine.Spec) *V {
		got, v := observeSorted(spec)
		if v != nil {
			return v
		}
		scrubScripts(&got)
		w := want
		w.Steps = append([]RStep(nil), want.Steps...)
		scrubScripts(&w)
		if d := same(got, w); d != "" {
			return fail("%s: %s", what, d)
		}
		vols, ids := map[string]bool{}, map[string]bool{}
		for _, v := range spec.Docker.Volumes {
			if ids[v.Metadata.UID] || v.Metadata.UID == "" {
				return fail("%s: volume %q has the identifier %q", what, v.Metadata.Name, v.Metadata.UID)
			}
			ids[v.Metadata.UID] = true
			vols[v.Metadata.Name] = true
		}
		// the mounts of added volumes refer to the volume of
		// that host path.
		for _, s := range spec.Steps {
			for _, m := range s.Volumes {
				if reUID.MatchString(m.Name) && !vols[m.Name] {
					return fail("%s: step %q mounts the volume %q, which is not defined", what, s.Metadata.Name, m.Name)
				}
			}
		}
		return addedMounts(what, spec, in.Fns)
	}
	if v := compare("as transform function", func() *engine.Spec {
		comp := in.C.compiler()
		comp.TransformFunc = transform.Combine(fns...)
		return comp.Compile(pipe)
	}()); v != nil {
		return v
	}
	// the function of the caller is called once, with the
	// compiled pipeline, and has the last word.
	plain, v := observeSorted(in.C.compiler().Compile(pipe))
	if v != nil {
		return v
	}
	scrubScripts(&plain)
	calls := 0
	var given RSpec
	var bad *V
	comp.TransformFunc = func(spec *engine.Spec) {
		calls++
		if given, bad = observeSorted(spec); bad != nil {
			return
		}
		for i, s := range spec.Steps {
			s.Docker.Image = fmt.Sprintf("own/image:%d", i)
			s.Docker.Privileged = i%2 == 0
			s.RunPolicy = engine.RunAlways
		}
		spec.Docker.Volumes = nil
	}
	last := comp.Compile(pipe)
	if bad != nil {
		return bad
	}
	if calls != 1 {
		return fail("the transform function is called %d times", calls)
	}
	scrubScripts(&given)
	if d := same(given, plain); d != "" {
		return fail("what the transform function is given is not the compiled pipeline: %s", d)
	}
	for i, s := range last.Steps {
		if want := fmt.Sprintf("own/image:%d", i); s.Docker.Image != want || s.Docker.Privileged != (i%2 == 0) || s.RunPolicy != engine.RunAlways {
			return fail("after the transform function step %q has the image %q, privileged %v and policy %v, not the ones it set", s.Metadata.Name, s.Docker.Image, s.Docker.Privileged, s.RunPolicy)
		}
	}
	if n := len(last.Docker.Volumes); n != 0 {
		return fail("the transform function removed the volumes, and %d are left", n)
	}
	one := in.C.compiler().Compile(pipe)
	for _, f := range fns {
		f(one)
	}
	if v := compare("one after the other", one); v != nil {
		return v
	}
	comb := in.C.compiler().Compile(pipe)
	transform.Combine(fns...)(comb)
	if v := compare("combined", comb); v != nil {
		return v
	}
	// whatever happens to one of the pipelines, the other one
	// stays as it is.
	extra := map[string]string{"OTHER": "other"}
	for _, f := range []func(*engine.Spec){
		transform.WithLimits(77777, 88888), transform.WithEnviron(extra), transform.WithLables(extra), transform.WithNetrc("other", "other", "other"),
		transform.WithNetworks([]string{"other"}), transform.WithVolumes(map[string]string{"/other": "/other"}), transform.WithSecrets(extra),
		transform.WithAuths([]*engine.DockerAuth{{Address: "other"}}), transform.Exclude(names(comb)),
	} {
		f(comb)
	}
	if v := compare("after another pipeline", one); v != nil {
		return v
	}
	for _, f := range intact {
		if v := f(); v != nil {
			return v
		}
	}
	return nil
}

func names(spec *engine.Spec) (out []string) {
	for _, s := range spec.Steps {
		out = append(out, s.Metadata.Name)
	}
	return out
}

// addedMounts: each added volume is mounted where it was asked
// for, by its own name.
func addedMounts(what string, spec *engine.Spec, fns []TransM) *V {
	host := map[string]string{}
	for _, v := range spec.Docker.Volumes {
		if reUID.MatchString(v.Metadata.Name) && v.HostPath != nil {
			host[v.Metadata.Name] = v.HostPath.Path
		}
	}
	allowed := map[string]bool{}
	for _, f := range fns {
		switch f.Kind {
		case "volumes":
			for _, kv := range f.KV {
				allowed[kv.K+"\x00"+kv.V] = true
			}
		case "volumeslice":
			for _, x := range f.L {
				if p := strings.Split(x, ":"); len(p) == 2 {
					allowed[p[0]+"\x00"+p[1]] = true
				}
			}
		}
	}
	for _, s := range spec.Steps {
		for _, m := range s.Volumes {
			if h, ok := host[m.Name]; ok && !allowed[h+"\x00"+m.Path] {
				return fail("%s: step %q mounts the host path %q at %q", what, s.Metadata.Name, h, m.Path)
			}
		}
	}
	// labels of the volumes: an added volume has the labels
	// that were applied after it was added.
	var want, got []string
	name := func(v *engine.Volume) string {
		if reUID.MatchString(v.Metadata.Name) && v.HostPath != nil {
			return "added " + v.HostPath.Path
		}
		return v.Metadata.Name
	}
	after := func(fns []TransM) string {
		labels := map[string]string{}
		for _, f := range fns {
			if f.Kind == "labels" {
				for _, kv := range f.KV {
					labels[kv.K] = kv.V
				}
			}
		}
		return fmt.Sprintf(" %q", labels)
	}
	for _, v := range spec.Docker.Volumes {
		got = append(got, name(v)+fmt.Sprintf(" %q", v.Metadata.Labels))
		if n := name(v); !strings.HasPrefix(n, "added ") {
			want = append(want, n+after(fns))
		}
	}
	for i, f := range fns {
		switch f.Kind {
		case "volumes":
			for _, kv := range f.KV {
				want = append(want, "added "+kv.K+after(fns[i:]))
			}
		case "volumeslice":
			seen := map[string]bool{}
			for _, x := range f.L {
				if p := strings.Split(x, ":"); len(p) == 2 && !seen[p[0]] {
					seen[p[0]] = true
					want = append(want, "added "+p[0]+after(fns[i:]))
				}
			}
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	if d := same(got, want); d != "" {
		return fail("%s: the labels of the volumes: %s", what, d)
	}
	return nil
}

// scrubScripts: the scripts are mounted under random names, and
// observe has resolved them.
func scrubScripts(s *RSpec) {
	for i := range s.Steps {
		for k, v := range s.Steps[i].Env {
			s.Steps[i].Env[k] = v
		}
	}
}

func init() {
	register(&Prop{ID: "C15", Title: "credentials reach only the steps that ask for them",
		Subs: []Sub{
			sub("taint", "pipelines whose secrets and git credentials carry marks, with skip rules, filters and steps named like the credentials file; the marks are searched in the compiled pipeline, and the secrets of each step are compared with the model; non-trivial: a step asks for a secret, or the pipeline clones", 32000, 300000, genSecretCase, checkSecrets).shards(8),
		}})
	register(&Prop{ID: "C16", Title: "the compiled pipeline refers only to what it defines",
		Subs: []Sub{
			sub("references", "valid pipelines with options and added secrets, volumes and labels, compiled repeatedly; all identifiers and references are collected and compared; non-trivial: has containers", 32000, 300000, genRefCase, checkRefs).shards(8),
			sub("processes", "two to five processes that compile on up to four goroutines, at the same time or one after another: no two definitions have the same identifier; non-trivial: all", 80, 800, genProcCase, checkProcs).shards(2),
		}})
	register(&Prop{ID: "C20", Title: "only whitelisted plugins without commands become privileged",
		Subs: []Sub{
			sub("whitelist", "containers and whitelists whose images are spelled in different ways, against the reference image parser; non-trivial: the image is one of the whitelist", 60000, 600000, genPrivCase, checkPriv).shards(2),
			sub("compiled", "valid pipelines compiled with a whitelist derived from their images; non-trivial: a step is to be privileged", 24000, 200000, genPrivPipe, checkPrivPipe).shards(8),
		}})
	register(&Prop{ID: "C23", Title: "plugin settings arrive as the plugin expects them",
		Subs: []Sub{
			sub("settings", "settings of any type and depth, parsed from yaml or built in memory; the environment is compared with a reference encoder (json by meaning); non-trivial: has a setting", 40000, 400000, genSettingsCase, checkSettings).shards(8),
		}})
	register(&Prop{ID: "C24", Title: "compiling is a pure function of its input", Race: true,
		Subs: []Sub{
			sub("history", "histories of compilations of up to three pipelines with all transforms, in sequence and in parallel under the race detector: every result equals the result of a fresh compiler, earlier results and pipelines are unchanged; non-trivial: two or more compilations", 1600, 24000, genPure, checkPure).shards(8),
		}})
	register(&Prop{ID: "C25", Title: "each transform changes what it is for and nothing else",
		Subs: []Sub{
			sub("transforms", "valid pipelines and one to four transforms with random arguments, applied by the compiler, one after the other, and combined; compared with reference transforms; non-trivial: has containers", 32000, 240000, genTransCase, checkTrans).shards(8),
		}})
}
