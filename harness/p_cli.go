package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/compiler/transform"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/linter"
	"github.com/drone/drone-yaml/yaml/pretty"
	"github.com/drone/drone-yaml/yaml/signer"
	"pgregory.net/rapid"
)

// ---- C31: the command line, against the library ----

// CLICase is a directory and a history of commands.
type CLICase struct {
	Files []CLIFile `json:"files"`
	Ops   []CLIOp   `json:"ops"`
	Env   []KV      `json:"env,omitempty"` // of the process
}

// CLIFile is a file of the directory.
type CLIFile struct {
	Name string `json:"name"`
	Data []byte `json:"data"`
	Mode uint32 `json:"mode"`
	Link string `json:"link,omitempty"` // soft or hard: the file has a second name
}

// CLIOp is one command.
type CLIOp struct {
	Cmd   string   `json:"cmd"`
	File  string   `json:"file,omitempty"` // empty: the default
	Save  bool     `json:"save,omitempty"`
	Short bool     `json:"short,omitempty"` // the short option
	Priv  bool     `json:"priv,omitempty"`
	Key   string   `json:"key,omitempty"`
	URL   string   `json:"url,omitempty"`
	Last  bool     `json:"last,omitempty"` // options behind the file
	C     CLICompM `json:"c,omitempty"`
	Bad   string   `json:"bad,omitempty"` // an option that does not exist
}

// CLICompM are the options of the compile command.
type CLICompM struct {
	Name       string            `json:"name,omitempty"`
	Clone      bool              `json:"clone,omitempty"`
	Trusted    bool              `json:"trusted,omitempty"`
	Labels     []KV              `json:"labels,omitempty"`
	Volumes    []KV              `json:"volumes,omitempty"`
	Environ    []KV              `json:"environ,omitempty"`
	Secrets    []KV              `json:"secrets,omitempty"`
	Networks   []string          `json:"networks,omitempty"`
	Dind       []string          `json:"dind,omitempty"`
	Registries []string          `json:"registries,omitempty"`
	Creds      []string          `json:"creds,omitempty"`
	Text       map[string]string `json:"text,omitempty"` // options with a text
	Mem        string            `json:"mem,omitempty"`
	MemBytes   int64             `json:"mem_bytes,omitempty"`
}

var cliTextFlags = []string{"event", "repo", "git-remote", "git-branch", "git-ref", "git-sha", "cron", "instance", "deploy-to", "netrc-username", "netrc-password", "netrc-machine"}

func (o *CLIOp) args() []string {
	var opts, pos []string
	flag := func(b bool, long, short string) {
		if b && o.Short && short != "" {
			opts = append(opts, short)
		} else if b {
			opts = append(opts, long)
		}
	}
	if o.Cmd == "sign" || o.Cmd == "verify" {
		if o.Key != "" {
			pos = append(pos, o.Key)
		}
	}
	if o.File != "" {
		pos = append(pos, o.File)
	}
	switch o.Cmd {
	case "fmt":
		flag(o.Save, "--save", "-s")
		flag(o.Priv, "--privileged", "-p")
	case "convert":
		flag(o.Save, "--save", "-s")
		if o.URL != "" {
			opts = append(opts, "--addr="+o.URL)
		}
	case "lint":
		flag(o.Priv, "--privileged", "-p")
	case "sign":
		flag(o.Save, "--save", "-s")
	case "compile":
		c := o.C
		if c.Name != "" {
			opts = append(opts, "--name="+c.Name)
		}
		flag(c.Clone, "--clone", "")
		flag(c.Trusted, "--trusted", "")
		for _, x := range []struct {
			n string
			l []KV
		}{{"label", c.Labels}, {"volume", c.Volumes}, {"env", c.Environ}, {"secret", c.Secrets}} {
			for _, kv := range x.l {
				opts = append(opts, "--"+x.n+"="+kv.K+"="+kv.V)
			}
		}
		for _, x := range []struct {
			n string
			l []string
		}{{"network", c.Networks}, {"dind", c.Dind}, {"registry", c.Registries}, {"git-creds", c.Creds}} {
			for _, s := range x.l {
				opts = append(opts, "--"+x.n+"="+s)
			}
		}
		for _, k := range cliTextFlags {
			if v, ok := c.Text[k]; ok {
				opts = append(opts, "--"+k+"="+v)
			}
		}
		if c.Mem != "" {
			opts = append(opts, "--mem-limit="+c.Mem)
		}
	}
	if o.Bad != "" {
		opts = append(opts, o.Bad)
	}
	if o.Last {
		return append(append([]string{o.Cmd}, pos...), opts...)
	}
	return append(append([]string{o.Cmd}, opts...), pos...)
}

// cliWant is what the library gives.
type cliWant struct {
	ok     bool
	msg    string       // a part of the message of a failure
	out    *string      // the output
	file   []byte       // the new content of the file
	saved  bool         // the file is written
	spec   *engine.Spec // the compiled pipeline
	reason string
}

func (o *CLIOp) want(data []byte, oss bool) (w cliWant) {
	bad := func(err error) cliWant { return cliWant{msg: err.Error()} }
	switch o.Cmd {
	case "fmt":
		m, err := yaml.ParseBytes(data)
		if err != nil {
			return bad(err)
		}
		buf := new(bytes.Buffer)
		pretty.Print(buf, m)
		if o.Save {
			return cliWant{ok: true, file: buf.Bytes(), saved: true}
		}
		s := buf.String()
		return cliWant{ok: true, out: &s}
	case "convert":
		name := o.File
		if name == "" {
			name = ".drone.yml"
		}
		b, err := converter.Convert(data, converter.Metadata{Filename: name, URL: o.URL})
		if oss {
			b, err = data, nil
		}
		if err != nil {
			return bad(err)
		}
		if o.Save {
			return cliWant{ok: true, file: b, saved: true}
		}
		s := string(b)
		return cliWant{ok: true, out: &s}
	case "lint":
		m, err := yaml.ParseBytes(data)
		if err != nil {
			return bad(err)
		}
		for _, r := range m.Resources {
			if err := linter.Lint(r, o.Priv); err != nil {
				return bad(err)
			}
		}
		return cliWant{ok: true}
	case "sign":
		if o.Save {
			b, err := signer.SignUpdate(data, signer.KeyString(o.Key))
			if err != nil {
				return bad(err)
			}
			return cliWant{ok: true, file: b, saved: true}
		}
		h, err := signer.Sign(data, signer.KeyString(o.Key))
		if err != nil {
			return bad(err)
		}
		h += "\n"
		return cliWant{ok: true, out: &h}
	case "verify":
		ok, err := signer.Verify(data, signer.KeyString(o.Key))
		if err != nil {
			return bad(err)
		}
		return cliWant{ok: ok}
	}
	m, err := yaml.ParseBytes(data)
	if err != nil {
		return bad(err)
	}
	for _, r := range m.Resources {
		p, ok := r.(*yaml.Pipeline)
		if !ok || o.C.Name != "" && o.C.Name != p.Name {
			continue
		}
		spec, ok := o.C.compile(p)
		return cliWant{ok: ok, spec: spec}
	}
	return cliWant{}
}

// compile is what the options stand for.
func (c *CLICompM) compile(p *yaml.Pipeline) (*engine.Spec, bool) {
	if !c.Clone {
		p.Clone.Disable = true
	}
	var auths []*engine.DockerAuth
	for _, s := range c.Registries {
		u, err := url.Parse(s)
		if err != nil || u.User == nil {
			return nil, false
		}
		pass, ok := u.User.Password()
		if !ok {
			return nil, false
		}
		auths = append(auths, &engine.DockerAuth{Address: u.Host, Username: u.User.Username(), Password: pass})
	}
	creds := ""
	for _, s := range c.Creds {
		u, err := url.Parse(s)
		if err != nil {
			return nil, false
		}
		creds += u.String() + "\n"
	}
	comp := &compiler.Compiler{}
	comp.GitCredentialsFunc = func() []byte { return []byte(creds) }
	dind := c.Dind
	if len(dind) == 0 {
		dind = []string{"plugins/docker"}
	}
	comp.PrivilegedFunc = compiler.DindFunc(dind)
	t := c.Text
	comp.SkipFunc = compiler.SkipFunc(compiler.SkipData{Branch: t["git-branch"], Cron: t["cron"], Event: t["event"], Instance: t["instance"], Ref: t["git-ref"], Repo: t["repo"], Target: t["deploy-to"]})
	envs := kvMap(c.Environ)
	if envs == nil {
		envs = map[string]string{}
	}
	envs["DRONE_COMMIT_BRANCH"] = t["git-branch"]
	envs["DRONE_COMMIT_SHA"] = t["git-sha"]
	envs["DRONE_COMMIT_REF"] = t["git-ref"]
	envs["DRONE_REMOTE_URL"] = t["git-remote"]
	envs["DRONE_BUILD_EVENT"] = t["event"]
	if tag := strings.TrimPrefix(t["git-ref"], "refs/tags/"); tag != t["git-ref"] {
		envs["DRONE_TAG"] = tag
	}
	spec := comp.Compile(p)
	for _, f := range []func(*engine.Spec){
		transform.WithAuths(auths), transform.WithEnviron(envs), transform.WithLables(kvMap(c.Labels)), transform.WithLimits(c.MemBytes, 0),
		transform.WithNetrc(t["netrc-machine"], t["netrc-username"], t["netrc-password"]), transform.WithNetworks(c.Networks), transform.WithProxy(),
		transform.WithSecrets(kvMap(c.Secrets)), transform.WithVolumes(kvMap(c.Volumes))} {
		f(spec)
	}
	return spec, true
}

func genCLICompile(t *rapid.T, m *ManifestM) (c CLICompM) {
	var p *PipeM
	if m != nil {
		for _, r := range m.R {
			if r.Pipe != nil && (p == nil || chance(t, 2)) {
				p = r.Pipe
			}
		}
	}
	noNul := func(f func(*rapid.T) string) func(*rapid.T) string {
		return func(t *rapid.T) string { return strings.Replace(f(t), "\x00", "", -1) }
	}
	val := noNul(shortText)
	kvs := func() []KV { return maybe(t, 3, func(t *rapid.T) []KV { return genKVs(t, 2, safeIdent, val) }) }
	if p != nil && chance(t, 2) {
		c.Name = noNul(func(*rapid.T) string { return p.Name })(t)
	} else if chance(t, 8) {
		c.Name = safeIdent(t)
	}
	c.Clone, c.Trusted = chance(t, 2), chance(t, 4)
	c.Labels, c.Environ, c.Secrets = kvs(), kvs(), kvs()
	if chance(t, 3) {
		// variables that are also set for the commit, by the
		// compiler or by a step.
		names := []string{"DRONE_COMMIT_BRANCH", "DRONE_COMMIT_SHA", "DRONE_COMMIT_REF", "DRONE_REMOTE_URL", "DRONE_BUILD_EVENT", "DRONE_TAG",
			"CI_NETRC_MACHINE", "DRONE_NETRC_PASSWORD", "DRONE_WORKSPACE", "PLUGIN_DEPTH", "HTTP_PROXY", "http_proxy"}
		if p != nil {
			for _, s := range p.Steps {
				for _, e := range s.Env {
					if e.Null || strings.ContainsAny(e.K, "=\x00") || e.K == "" {
						continue
					}
					names = append(names, e.K)
				}
			}
		}
		c.Environ = append(c.Environ, genKVs(t, 2, func(t *rapid.T) string { return pick(t, names) }, val)...)
	}
	c.Volumes = maybe(t, 4, func(t *rapid.T) []KV { return genKVs(t, 2, absPath, absPath) })
	for i := range c.Volumes {
		c.Volumes[i].K = strings.NewReplacer(":", "", "=", "", "\x00", "").Replace(c.Volumes[i].K)
		c.Volumes[i].V = strings.Replace(c.Volumes[i].V, "\x00", "", -1)
	}
	c.Networks = maybe(t, 4, func(t *rapid.T) []string { return listOf(t, 1, 2, safeIdent) })
	c.Dind = maybe(t, 4, func(t *rapid.T) []string {
		l := listOf(t, 1, 2, goodImage)
		if p != nil && len(p.Steps) > 0 {
			l = append(l, noNul(func(*rapid.T) string { return p.Steps[0].Image })(t))
		}
		return l
	})
	urls := func(t *rapid.T) []string {
		return listOf(t, 1, 2, func(t *rapid.T) string {
			return "https://" + pick(t, []string{"octocat:pass@", "a:b@", "u:p%40x@", "u:@"}) + pick(t, []string{"docker.io", "quay.io:443", "github.com/a"})
		})
	}
	c.Registries = maybe(t, 4, urls)
	if len(c.Registries) > 0 && chance(t, 6) {
		c.Registries = append(c.Registries, pick(t, []string{"https://docker.io", "https://u@docker.io"}))
	}
	c.Creds = maybe(t, 4, urls)
	c.Text = map[string]string{}
	values := map[string][]string{"event": {"push", "pull_request", "tag", "deployment"}, "repo": {"octocat/hello-world", "a/b"}, "git-ref": {"refs/heads/master", "refs/heads/a/b", "refs/pull/1/head", "refs/tags/v1.0", "refs/tags/x/y", "refs/tags/refs/tags/z", "refs/tags/", "refs/tagsx", "v1.0"}}
	for _, k := range cliTextFlags {
		if chance(t, 2) {
			continue
		}
		if l := values[k]; l != nil {
			c.Text[k] = pick(t, l)
			continue
		}
		c.Text[k] = pick(t, append([]string{"x-" + k}, simpleValues[:11]...))
	}
	if chance(t, 4) {
		x := pick(t, []struct {
			s string
			n int64
		}{{"1GB", 1 << 30}, {"512MB", 512 << 20}, {"1KB", 1 << 10}, {"100B", 100}})
		c.Mem, c.MemBytes = x.s, x.n
	}
	return
}

var cliNames = []string{".drone.yml", "a.yml", ".gitlab-ci.yml", "bitbucket-pipelines.yml", "sub/.drone.yml"}

// cliLink is the second name of a file.
const cliLink = "linked-"

func genCLI(t *rapid.T) CLICase {
	var in CLICase
	models := map[string]*ManifestM{}
	for i, name := range cliNames {
		if i > 0 && !chance(t, 3) || i == 0 && chance(t, 10) {
			continue
		}
		f := CLIFile{Name: name, Mode: pick(t, []uint32{0644, 0600, 0755, 0444})}
		var m *ManifestM
		switch num(t, 0, 7) {
		case 0:
			f.Data = mutateBytes(t, []byte(genAnyFile(t)))
		case 1:
			f.Data = []byte(genAnyFile(t))
		case 2:
			x := genLegacy(t)
			s, _ := emitDocs([]*Node{x.node()}, genStyle(t), nil)
			f.Data = []byte(s)
		default:
			// valid pipelines, that compile.
			var x ManifestM
			for j, n := 0, num(t, 1, 3); j < n; j++ {
				o := optValid()
				p := genCompWith(func() opt { return o })(t).P
				if j > 0 && chance(t, 3) {
					p.Name = nearText(t, x.R[0].Pipe.Name)
				}
				x.R = append(x.R, ResourceM{Pipe: &p})
			}
			if chance(t, 3) {
				x.R = append(x.R, ResourceM{Sec: &SecretM{Kind: "secret", Name: safeIdent(t), Data: "x"}})
			}
			fc := FileCase{x, genStyle(t)}
			s, _ := fc.text(nil)
			f.Data = []byte(s)
			m = &x
		}
		if chance(t, 6) {
			f.Link = pick(t, []string{"soft", "hard"})
		}
		if chance(t, 25) {
			// longer than any buffer.
			f.Data = append(f.Data, bytes.Repeat([]byte("\n# "+strings.Repeat("x", num(t, 0, 80))), num(t, 500, 4000))...)
			f.Data = append(f.Data, '\n')
		}
		models[name] = m
		in.Files = append(in.Files, f)
	}
	key := "0123456789abcdef0123456789abcdef"
	other := "fedcba9876543210fedcba9876543210fe"
	prev := CLIOp{}
	in.Ops = listOf(t, 1, 5, func(t *rapid.T) (o CLIOp) {
		defer func() { prev = o }()
		if (prev.Cmd == "sign" && prev.Save || prev.Cmd == "verify" && chance(t, 3)) && !chance(t, 3) {
			o = CLIOp{Cmd: pick(t, []string{"verify", "verify", "verify", "fmt", "sign"}), File: prev.File, Key: prev.Key, Save: chance(t, 2)}
			if chance(t, 4) {
				o.Key = other
			}
			return o
		}
		o = CLIOp{Cmd: pick(t, []string{"fmt", "fmt", "convert", "convert", "lint", "sign", "sign", "verify", "verify", "compile", "compile"})}
		switch {
		case len(in.Files) > 0 && !chance(t, 4):
			f := pick(t, in.Files)
			o.File = f.Name
			if f.Link != "" && chance(t, 2) {
				o.File = cliLink + filepath.Base(f.Name)
			} else if chance(t, 8) {
				o.File = pick(t, []string{"./", "dir/../", "@"}) + f.Name
			}
		case chance(t, 5):
			o.File = pick(t, []string{"missing.yml", "dir", "dir/x.yml"})
		}
		o.Save, o.Short, o.Priv, o.Last = chance(t, 2), chance(t, 2), chance(t, 2), chance(t, 2)
		switch o.Cmd {
		case "convert":
			if chance(t, 2) {
				o.URL = genURL(t).URL
			}
		case "sign", "verify":
			o.Key = key
			if chance(t, 4) {
				o.Key = pick(t, []string{other, "short", "é" + key})
			}
		case "compile":
			if len(in.Files) > 0 && chance(t, 2) {
				for _, f := range in.Files {
					if models[f.Name] != nil {
						o.File = f.Name
					}
				}
			}
			name := o.File
			if name == "" {
				name = ".drone.yml"
			}
			m := models[name]
			for _, f := range in.Files {
				if m == nil && strings.HasSuffix(name, filepath.Base(f.Name)) {
					m = models[f.Name]
				}
			}
			o.C = genCLICompile(t, m)
		}
		if chance(t, 25) {
			o.Bad = pick(t, []string{"--nope", "-z", "--save=x=y"})
		}
		return o
	})
	if chance(t, 4) {
		for _, k := range uniq(t, 3, func(t *rapid.T) string {
			return pick(t, []string{"HTTP_PROXY", "http_proxy", "HTTPS_PROXY", "https_proxy", "no_proxy", "NO_PROXY"})
		}) {
			in.Env = append(in.Env, KV{k, "http://" + strings.ToLower(k) + ".proxy"})
		}
	}
	return in
}

// snapshot is what a directory holds.
func snapshot(dir string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, path)
		s := fi.Mode().String()
		switch {
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			s += " " + string(b)
		case fi.Mode()&os.ModeSymlink != 0:
			to, err := os.Readlink(path)
			if err != nil {
				return err
			}
			s += " " + to
		}
		out[rel] = s
		return nil
	})
	return out, err
}

func checkCLI(c *C, in CLICase) *V {
	if c.cli == "" {
		panic("harness: the command is not built")
	}
	dir, err := os.MkdirTemp(c.scratch, "cli")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	files := map[string][]byte{}
	must := func(err error) {
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	must(os.Mkdir(filepath.Join(dir, "dir"), 0755))
	must(os.Mkdir(filepath.Join(dir, "sub"), 0755))
	same := map[string]string{}   // the names of links, and their files
	hard := map[string][]string{} // the names of a file
	for _, f := range in.Files {
		path := filepath.Join(dir, f.Name)
		must(os.WriteFile(path, f.Data, 0600))
		must(os.Chmod(path, os.FileMode(f.Mode)))
		files[f.Name] = f.Data
		same[f.Name] = f.Name
		hard[f.Name] = []string{f.Name}
		link := cliLink + filepath.Base(f.Name)
		if _, ok := same[link]; ok || f.Link == "" {
			continue
		}
		same[link] = f.Name
		c.Class("a file with two names")
		if f.Link == "hard" {
			must(os.Link(path, filepath.Join(dir, link)))
			hard[f.Name] = append(hard[f.Name], link)
		} else {
			must(os.Symlink(f.Name, filepath.Join(dir, link)))
		}
	}
	must(os.WriteFile(filepath.Join(dir, "bystander"), []byte("x"), 0644))
	var environ []string
	for _, kv := range in.Env {
		environ = append(environ, kv.K+"="+kv.V)
		os.Setenv(kv.K, kv.V)
		defer os.Unsetenv(kv.K)
	}
	before, err := snapshot(dir)
	must(err)
	for i, o := range in.Ops {
		name := o.File
		if name == "" {
			name = ".drone.yml"
		}
		// from here on, the name of the file and not of a link.
		clean := filepath.Clean(strings.TrimPrefix(name, "@"))
		if strings.HasPrefix(o.File, "@") {
			o.File = filepath.Join(dir, clean)
		}
		name = same[clean]
		data, ok := files[name]
		var want cliWant
		switch {
		case !ok:
			want.reason = "there is no such file"
		case o.Bad != "":
			want.reason = "there is no such option"
		default:
			want = o.want(append([]byte(nil), data...), c.oss)
		}
		args := o.args()
		var stdout, stderr bytes.Buffer
		cmd := exec.Command(c.cli, args...)
		cmd.Dir = dir
		cmd.Env = append([]string{"PATH=/nowhere", "HOME=" + dir, "TMPDIR=" + dir}, environ...)
		cmd.Stdout, cmd.Stderr = &stdout, &stderr
		err := cmd.Run()
		if _, exit := err.(*exec.ExitError); err != nil && !exit {
			panic("harness: " + err.Error())
		}
		code := cmd.ProcessState.ExitCode()
		what := fmt.Sprintf("command %d: drone-yaml %q", i, args)
		show := fmt.Sprintf("\nexit code %d\nstdout: %s\nstderr: %s\n---- the file ----\n%s", code, clip(stdout.String(), 1500), clip(stderr.String(), 1500), clip(string(data), 3000))
		if code != 0 && code != 1 || strings.Contains(stderr.String(), "\ngoroutine ") && code != 0 {
			return fail("%s dies%s", what, show)
		}
		if want.ok && code != 0 {
			return fail("%s fails, and the library succeeds%s", what, show)
		}
		if !want.ok && code == 0 {
			return fail("%s succeeds, and the library fails: %s%s%s", what, want.msg, want.reason, show)
		}
		all := stdout.String() + stderr.String()
		if !want.ok {
			c.Class(o.Cmd + " fails")
			if strings.TrimSpace(all) == "" {
				return fail("%s fails and prints no reason%s", what, show)
			}
			if want.msg != "" && !strings.Contains(all, want.msg) {
				return fail("%s does not print the reason %q%s", what, want.msg, show)
			}
		} else {
			c.Class(o.Cmd)
			c.NonTrivialIf(len(data) > 0)
		}
		if want.out != nil && all != *want.out {
			return fail("%s does not print what the library gives:\n%q\nwant\n%q%s", what, all, *want.out, show)
		}
		if want.spec != nil {
			if v := compareCompiled(what, stdout.Bytes(), want.spec); v != nil {
				v.Msg += show
				return v
			}
		}
		after, err := snapshot(dir)
		must(err)
		exp := map[string]string{}
		for k, v := range before {
			exp[k] = v
		}
		if want.saved {
			c.Class(o.Cmd + " saved")
			mode := strings.SplitN(before[name], " ", 2)[0]
			for _, name := range hard[name] {
				exp[name] = mode + " " + string(want.file)
			}
			files[name] = want.file
		}
		for _, k := range unionKeys(exp, after) {
			if exp[k] != after[k] {
				return fail("%s leaves %q as\n%q\nwant\n%q%s", what, k, after[k], exp[k], show)
			}
		}
		before = after
	}
	c.ClassIf(len(in.Ops) > 2, "three or more commands")
	return nil
}

func unionKeys(ms ...map[string]string) (out []string) {
	seen := map[string]bool{}
	for _, m := range ms {
		for k := range m {
			if !seen[k] {
				seen[k] = true
				out = append(out, k)
			}
		}
	}
	sort.Strings(out)
	return
}

// compareCompiled compares the printed pipeline with the one of
// the library.
func compareCompiled(what string, out []byte, spec *engine.Spec) *V {
	norm := func(b []byte) (RSpec, error) {
		s := new(engine.Spec)
		if err := json.Unmarshal(b, s); err != nil {
			return RSpec{}, err
		}
		r, v := observeSorted(s)
		if v != nil {
			return r, fmt.Errorf("%s", v.Msg)
		}
		return r, nil
	}
	b, err := json.Marshal(spec)
	if err != nil {
		panic("harness: " + err.Error())
	}
	want, err := norm(b)
	if err != nil {
		return fail("%s: the library gives a pipeline that is not consistent: %v", what, err)
	}
	got, err := norm(out)
	if err != nil {
		return fail("%s prints no compiled pipeline: %v", what, err)
	}
	if d := same(got, want); d != "" {
		return fail("%s prints another pipeline than the library compiles: %s", what, d)
	}
	return nil
}

func init() {
	register(&Prop{ID: "C31", Title: "The command line does what the library does, and spares files",
		Assumptions: []string{"the result may be printed on either of the two output streams (compile and sign: standard output)", "the file system does not fail", "file names are relative to the working directory"},
		Subs: []Sub{
			sub("history", "directories with files of all formats, and histories of up to five commands with random options on them; the command is built and run, and its exit code, output and effect on every file are compared with the library, which works on a model of the directory; non-trivial: a command succeeds on a file that is not empty", 2400, 60000, genCLI, checkCLI).cli().shards(8)}})
}
