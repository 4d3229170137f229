package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	goyaml "github.com/buildkite/yaml"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/compiler/transform"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/converter/legacy/matrix"
	"github.com/drone/drone-yaml/yaml/linter"
	"github.com/drone/drone-yaml/yaml/pretty"
	"github.com/drone/drone-yaml/yaml/signer"
	"pgregory.net/rapid"
)

const testKey = "0123456789abcdef0123456789abcdef"

// ---- C01: total on any input ----

// BytesCase is a raw file.
type BytesCase struct {
	Data []byte `json:"data"`
	Ref  string `json:"ref,omitempty"`
	URL  string `json:"url,omitempty"`
}

var filenames = []string{".drone.yml", "", "bitbucket-pipelines.yml", ".gitlab-ci.yml", "circle.yml", ".circleci/config.yml", ".travis.yml"}

// everything feeds the data to each entry point.
func everything(c *C, in BytesCase) *V {
	c.NonTrivialIf(len(in.Data) > 0)
	m, err := yaml.ParseBytes(in.Data)
	if err == nil {
		c.Class("parsed")
		if m == nil {
			return fail("Parse returns neither a manifest nor an error")
		}
		everyManifest(c, m)
	}
	yaml.ParseRawBytes(in.Data)
	signer.Sign(in.Data, signer.KeyString(testKey))
	signer.Verify(in.Data, signer.KeyString(testKey))
	signer.SignUpdate(in.Data, signer.KeyString(testKey))
	signer.WriteTo(in.Data, "abc")
	if axes, err := matrix.Parse(in.Data); err == nil && len(axes) == 0 && len(in.Data) > 0 && !validYAML(in.Data) {
		return fail("matrix.Parse returns neither combinations nor an error")
	}
	for _, name := range filenames {
		out, err := converter.Convert(in.Data, converter.Metadata{Filename: name, Ref: in.Ref, URL: in.URL})
		if err != nil {
			continue
		}
		// a gitlab file without jobs makes an empty file.
		if len(out) == 0 && len(in.Data) > 0 && (name != ".gitlab-ci.yml" || !validYAML(in.Data)) {
			return fail("the conversion of %q returns neither a file nor an error", name)
		}
		if name != ".drone.yml" && !bytes.Equal(out, in.Data) {
			c.Class("converted " + name)
		}
		if m, err := yaml.ParseBytes(out); err == nil && !bytes.Equal(out, in.Data) {
			everyManifest(c, m)
		}
	}
	m2 := new(yaml.Manifest)
	json.Unmarshal(in.Data, m2)
	return nil
}

// validYAML tells if the yaml library can read the data.
func validYAML(b []byte) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return goyaml.Unmarshal(b, new(ignored)) == nil
}

// ignored accepts any yaml.
type ignored struct{}

func (*ignored) UnmarshalYAML(func(interface{}) error) error { return nil }

func everyManifest(c *C, m *yaml.Manifest) {
	for _, trusted := range []bool{true, false} {
		linter.Manifest(m, trusted)
		for _, r := range m.Resources {
			linter.Lint(r, trusted)
		}
	}
	json.Marshal(m)
	m.Encode()
	pretty.Print(io.Discard, m)
	for _, r := range m.Resources {
		if p, ok := r.(*yaml.Pipeline); ok {
			c.Class("compiled")
			compileAll(p)
		}
	}
}

// compileAll compiles with every option in use.
func compileAll(p *yaml.Pipeline) *engine.Spec {
	comp := &compiler.Compiler{
		GitCredentialsFunc: func() []byte { return []byte("https://a:b@c\n") },
		PrivilegedFunc:     compiler.DindFunc([]string{"plugins/docker"}),
		SkipFunc:           compiler.SkipFunc(compiler.SkipData{Branch: "master", Event: "push", Ref: "refs/heads/master"}),
		TransformFunc: transform.Combine(
			transform.WithEnviron(map[string]string{"A": "b"}),
			transform.WithLables(map[string]string{"a": "b"}),
			transform.WithLimits(1, 2),
			transform.WithNetrc("a", "b", "c"),
			transform.WithNetworks([]string{"n"}),
			transform.WithSecretFunc(func(name string) *engine.Secret { return &engine.Secret{Data: name} }),
			transform.WithVolumes(map[string]string{"/a": "/b"}),
			transform.Include([]string{"build"}), transform.Exclude([]string{"test"}), transform.ResumeAt("test"),
		),
	}
	return comp.Compile(p)
}

var yamlBits = []string{"---\n", "...\n", "kind: pipeline\n", "kind: secret\n", "kind: signature\nhmac: 00\n", "steps:\n", "- name: a\n", "  image: b\n", "pipeline:\n", "  build:\n", "    image: golang\n",
	"    commands: [a]\n", ": ", "- ", "\n", "  ", "\t", "{", "}", "[", "]", ",", "&a ", "*a", "<<: *a\n", "<<: ", "!!binary ", "!!str ", "!!map ", "~", "null", "|\n", ">\n", "\"", "'", "#", "?", "%YAML 1.1\n", "\xff", "\x00", "\r", "\ufeff",
	"matrix:\n  A: [1, 2]\n", "matrix:\n  include:\n  - A: 1\n", "stages: [a, b]\n", "job:\n  stage: a\n  script: b\n", "image: a\n", "services:\n", "  branches:\n", "pipelines:\n  default:\n  - step:\n      script:\n      - a\n", "definitions:\n  services:\n    a:\n      image: b\n", "settings:\n", "environment:\n", "  a: 1\n", "when:\n", "volumes:\n", "trigger:\n", "depends_on: [a]\n", "data: x\n", "spec:\n", "1", "true", "0x", "1e999", "-.inf", "secrets: [a, {source: a, target: b}]\n", "workspace:\n  base: /a\n", "clone:\n", "1: 2\n", "[a]: b\n", "{a: b}: c\n", "? a\n: b\n"}

var yamlTraps = []string{"\n\ufeff\n", "\n\ufeff\r", "\r\ufeff\n", " \ufeff\n", "\n\ufeff\ufeff\n", "\t\ufeff\r", "\n{\ufeff>\n", "\n[\ufeff#\n", "\n- a: {.\n!}r", "\na: {.\n!}r"}

func genBytes(t *rapid.T) BytesCase {
	var b []byte
	switch num(t, 0, 4) {
	case 4:
		// the yaml library panics on what these files end with.
		b = []byte(pick(t, []func(*rapid.T) string{genAnyFile, func(t *rapid.T) string { return pick(t, yamlBits) }, func(*rapid.T) string { return "" }})(t) + pick(t, yamlTraps))
	case 0:
		b = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "b")
	case 1:
		b = []byte(strings.Join(listOf(t, 0, 40, func(t *rapid.T) string {
			if chance(t, 6) {
				return dict(t)
			}
			return pick(t, yamlBits)
		}), ""))
	default:
		b = []byte(genAnyFile(t))
		b = mutateBytes(t, b)
	}
	return bytesCase(t, b)
}

// genFiles generates well-formed files of each format.
func genFiles(t *rapid.T) BytesCase {
	if chance(t, 3) {
		c := genLegacy(t)
		s, _ := emitDocs([]*Node{c.node()}, genStyle(t), nil)
		return bytesCase(t, []byte(s))
	}
	return bytesCase(t, []byte(genAnyFile(t)))
}

func bytesCase(t *rapid.T, b []byte) BytesCase {
	return BytesCase{Data: b, Ref: pick(t, []string{"", "refs/heads/master", "refs/tags/v1", "refs/heads/[", "\\"}), URL: pick(t, []string{"", "https://github.com/octocat/hello-world", ":", "%zz", "http://[::1", "a/b"})}
}

// genAnyFile is a file of any of the formats.
func genAnyFile(t *rapid.T) string {
	switch num(t, 0, 4) {
	case 0:
		c := genLegacy(t)
		s, _ := emitDocs([]*Node{c.node()}, genStyle(t), nil)
		return s
	case 1:
		c := genGitlab(t)
		s, _ := emitDocs([]*Node{c.node()}, genStyle(t), nil)
		return s
	case 2:
		c := genBitbucket(t)
		s, _ := emitDocs([]*Node{c.node()}, genStyle(t), nil)
		return s
	default:
		f := FileCase{genManifest(t, optText()), genStyle(t)}
		s, _ := f.text(nil)
		return s
	}
}

func mutateBytes(t *rapid.T, b []byte) []byte {
	for i, n := 0, num(t, 0, 6); i < n; i++ {
		at := num(t, 0, len(b))
		to := at + num(t, 0, 12)
		if to > len(b) {
			to = len(b)
		}
		switch num(t, 0, 5) {
		case 0: // delete
			b = append(append([]byte{}, b[:at]...), b[to:]...)
		case 1: // insert
			b = append(append(append([]byte{}, b[:at]...), pick(t, yamlBits)...), b[at:]...)
		case 2: // replace
			b = append(append(append([]byte{}, b[:at]...), pick(t, yamlBits)...), b[to:]...)
		case 3: // duplicate a range
			if len(b) < 20000 {
				b = append(append(append([]byte{}, b[:to]...), b[at:to]...), b[to:]...)
			}
		case 4: // truncate
			if chance(t, 3) {
				b = append([]byte{}, b[:at]...)
			}
		case 5:
			if at < len(b) {
				b = append([]byte{}, b...)
				b[at] = rapid.Byte().Draw(t, "byte")
			}
		}
	}
	return b
}

// confuse replaces some of the nodes by nodes of another type.
func confuse(t *rapid.T, n *Node, rate int) *Node {
	if chance(t, rate) {
		return pick(t, []func(*rapid.T) *Node{
			func(t *rapid.T) *Node { return nNull() },
			func(t *rapid.T) *Node { return nInt(num(t, -1, 9)) },
			func(t *rapid.T) *Node { return nLit("true") },
			func(t *rapid.T) *Node { return nLit("1.5") },
			func(t *rapid.T) *Node { return nOpq(shortText(t)) },
			func(t *rapid.T) *Node { return nList() },
			func(t *rapid.T) *Node { return nList(nNull(), nOpq("a")) },
			func(t *rapid.T) *Node { return nMap() },
			func(t *rapid.T) *Node { return nMap().add("a", nNull()) },
			func(t *rapid.T) *Node { return nMap().add("name", nOpq("a")).add("image", nOpq("b")) },
			func(t *rapid.T) *Node { return nList(nMap().add("name", nOpq("a")).add("image", nOpq("b"))) },
			func(t *rapid.T) *Node { return nList(nList(nOpq("a")), nMap().add("a", nList(nNull()))) },
			func(t *rapid.T) *Node { return genVal(t, optText(), 3).node() },
			func(t *rapid.T) *Node {
				return &Node{Kind: "map", Keys: []*Node{nLit("1"), nLit("true")}, Items: []*Node{nNull(), nInt(1)}}
			},
			func(t *rapid.T) *Node {
				return nMap().add("include", nList(nNull(), nOpq("a"))).add("exclude", nOpq("b"))
			},
		})(t)
	}
	if len(n.Items) == 0 {
		return n
	}
	out := &Node{Kind: n.Kind, Text: n.Text, Alts: n.Alts, Keys: append([]*Node(nil), n.Keys...)}
	for _, x := range n.Items {
		out.Items = append(out.Items, confuse(t, x, rate))
	}
	return out
}

func genConfused(t *rapid.T) BytesCase {
	var nodes []*Node
	switch num(t, 0, 4) {
	case 0:
		nodes = []*Node{genLegacy(t).node()}
	case 1:
		nodes = []*Node{genGitlab(t).node()}
	case 2:
		nodes = []*Node{genBitbucket(t).node()}
	default:
		m := genManifest(t, optText())
		nodes = m.nodes()
	}
	rate := pick(t, []int{100, 40, 15})
	for i := range nodes {
		// the kind survives: the interesting part is behind it.
		x := confuse(t, &Node{Kind: "list", Items: nodes[i].Items}, rate)
		if x.Kind == "list" && len(x.Items) == len(nodes[i].Keys) {
			nodes[i] = &Node{Kind: "map", Keys: nodes[i].Keys, Items: x.Items}
		}
	}
	s, _ := emitDocs(nodes, genStyle(t), nil)
	return BytesCase{Data: []byte(s), Ref: pick(t, []string{"", "refs/heads/master", "refs/tags/v1"}), URL: pick(t, []string{"", "https://github.com/octocat/hello-world"})}
}

// JSONCase is a json document for the manifest decoder.
type JSONCase struct {
	Data string `json:"data"`
}

func genJSON(t *rapid.T) JSONCase {
	if chance(t, 3) {
		m := genManifest(t, optText())
		b, err := json.Marshal(m.drone())
		if err != nil {
			b = []byte("[]")
		}
		return JSONCase{string(mutateBytes(t, b))}
	}
	var gen func(depth int) string
	gen = func(depth int) string {
		k := num(t, 0, 7)
		if depth <= 0 && k > 4 {
			k = 0
		}
		switch k {
		case 0:
			return "null"
		case 1:
			return pick(t, []string{"1", "-1.5", "1e999", "true", "false"})
		case 2, 3, 4:
			return pick(t, []string{`"pipeline"`, `"secret"`, `"cron"`, `"registry"`, `"signature"`, `"a"`, `""`})
		case 5:
			return "[" + strings.Join(listOf(t, 0, 3, func(t *rapid.T) string { return gen(depth - 1) }), ",") + "]"
		default:
			return "{" + strings.Join(listOf(t, 0, 4, func(t *rapid.T) string {
				return pick(t, []string{`"kind"`, `"steps"`, `"services"`, `"name"`, `"image"`, `"settings"`, `"environment"`, `"value"`, `"from_secret"`, `"when"`, `"branch"`, `"include"`, `"volumes"`, `"temp"`, `"host"`, `"size_limit"`, `"data"`, `"spec"`, `"ports"`, `"build"`, `"resources"`, `"limits"`, `"memory"`, `"trigger"`}) + ":" + gen(depth-1)
			}), ",") + "}"
		}
	}
	return JSONCase{"[" + strings.Join(listOf(t, 0, 3, func(t *rapid.T) string { return gen(5) }), ",") + "]"}
}

func checkJSONTotal(c *C, in JSONCase) *V {
	m := new(yaml.Manifest)
	if err := json.Unmarshal([]byte(in.Data), m); err != nil {
		return nil
	}
	c.NonTrivialIf(len(m.Resources) > 0)
	everyManifest(c, m)
	return nil
}

// ---- C02: documents ----

// DocCase is a list of lines and how they are read.
type DocCase struct {
	Lines  []LineM `json:"lines"`
	CRLF   bool    `json:"crlf,omitempty"`
	NoEOL  bool    `json:"no_eol,omitempty"`
	Chunks []int   `json:"chunks,omitempty"`
	ErrAt  int     `json:"err_at,omitempty"` // percentage of the data, 0: no error
}

// LineM is a line, or a line padded to a length.
type LineM struct {
	S   string `json:"s"`
	Pad int    `json:"pad,omitempty"`
	CR  int    `json:"cr,omitempty"` // carriage returns that belong to the line
}

func (l LineM) String() string {
	s := l.S
	if l.Pad > len(s) {
		s += strings.Repeat("x", l.Pad-len(s))
	}
	return s + strings.Repeat("\r", l.CR)
}

func genDoc(t *rapid.T) DocCase {
	var c DocCase
	docs := num(t, 1, 4)
	for i := 0; i < docs; i++ {
		if i > 0 || !chance(t, 3) {
			c.Lines = append(c.Lines, LineM{S: pick(t, []string{"---", "---", "---", "--- ", "--- # comment", "----", "---a"})})
		}
		if chance(t, 12) {
			// a null document.
			c.Lines = append(c.Lines, listOf(t, 0, 2, func(t *rapid.T) LineM { return LineM{S: pick(t, []string{"", "# comment", "# ---"})} })...)
			c.Lines = append(c.Lines, LineM{S: pick(t, []string{"~", "null", "~ # nothing", "\r---", "{}", "# comment"})})
			continue
		}
		c.Lines = append(c.Lines, LineM{S: "kind: " + pick(t, []string{"pipeline", "secret", "cron", "signature", "registry"})})
		for j, n := 0, num(t, 0, 6); j < n; j++ {
			l := LineM{S: fmt.Sprintf("k%d: ", j) + pick(t, []string{"a", "--- a", "... b", "'---'", "\"...\"", "# x", "", "é", "1"})}
			switch num(t, 0, 9) {
			case 0:
				l = LineM{S: pick(t, []string{"", "  ", "# comment", "# ---", " ---", "  ...", "# --- a"})}
			case 1:
				l.Pad = pick(t, []int{4095, 100, 4096, 4097, 65534, 65535, 65536, 65537, 131072})
				if l.Pad > 60000 && chance(t, 2) {
					l.Pad = 200
				}
				if chance(t, 20) {
					l.Pad = pick(t, []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 3 << 20})
				}
			case 2:
				c.Lines = append(c.Lines, LineM{S: fmt.Sprintf("b%d: |", j)})
				l = LineM{S: pick(t, []string{"  a", "  ---", "  ...", "   x", "  # y"})}
			}
			c.Lines = append(c.Lines, l)
		}
	}
	if chance(t, 3) {
		c.Lines = append(c.Lines, LineM{S: pick(t, []string{"...", "... # end", "...."})})
		c.Lines = append(c.Lines, listOf(t, 0, 2, func(t *rapid.T) LineM { return LineM{S: pick(t, []string{"---", "kind: pipeline", "a: b", "x"})} })...)
	}
	c.CRLF = chance(t, 5)
	if chance(t, 8) {
		// lines with line ends of their own, some of them odd.
		for i := range c.Lines {
			c.Lines[i].CR = pick(t, []int{0, 0, 0, 1, 1, 2, 3})
		}
	}
	c.NoEOL = chance(t, 4) && c.Lines[len(c.Lines)-1].S != ""
	if chance(t, 2) {
		c.Chunks = listOf(t, 1, 5, func(t *rapid.T) int { return pick(t, []int{1, 2, 3, 7, 100, 4096, 65536}) })
	}
	for _, l := range c.Lines {
		if l.Pad >= 1<<20-1 {
			// small chunks of such lines take quadratic time.
			c.Chunks = nil
		}
	}
	if chance(t, 4) {
		c.ErrAt = num(t, 1, 100)
	}
	return c
}

func (d DocCase) bytes() []byte {
	eol := "\n"
	if d.CRLF {
		eol = "\r\n"
	}
	var b strings.Builder
	for i, l := range d.Lines {
		b.WriteString(l.String())
		if i < len(d.Lines)-1 || !d.NoEOL {
			b.WriteString(eol)
		}
	}
	return []byte(b.String())
}

var errReader = errors.New("reader failed")

// chunkReader returns the data in chunks, and then an error.
type chunkReader struct {
	data   []byte
	chunks []int
	n      int
	err    error
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.err
	}
	n := len(p)
	if len(r.chunks) > 0 {
		n = r.chunks[r.n%len(r.chunks)]
		r.n++
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	return n, nil
}

// refSplit is the reference: what the documents of a file are.
func refSplit(lines []string) []string {
	var docs []string
	open := false
	for _, l := range lines {
		if strings.HasPrefix(l, "---") {
			docs = append(docs, "")
			open = true
			continue
		}
		if !open {
			docs = append(docs, "")
			open = true
		}
		if strings.HasPrefix(l, "...") {
			break
		}
		docs[len(docs)-1] += l + "\n"
	}
	return docs
}

func checkDocs(c *C, d DocCase) *V {
	data := d.bytes()
	var lines []string
	long := false
	for i, l := range d.Lines {
		line := l.String()
		if !d.CRLF || i == len(d.Lines)-1 && d.NoEOL {
			// the line end is one carriage return longer.
			line = strings.TrimSuffix(line, "\r")
		}
		lines = append(lines, line)
		c.ClassIf(l.CR > 0, "line with carriage returns")
		long = long || len(l.String()) > 65000
	}
	c.ClassIf(long, "line over 64KB")
	c.ClassIf(d.CRLF, "crlf")
	c.ClassIf(d.ErrAt > 0, "reader error")
	if d.ErrAt > 0 {
		n := len(data) * d.ErrAt / 100
		c.NonTrivial()
		// what follows the terminator is not read.
		terminated := false
		for _, l := range strings.Split(string(data[:n]), "\n") {
			terminated = terminated || strings.HasPrefix(l, "...")
		}
		_, err := yaml.ParseRaw(&chunkReader{data: data[:n], chunks: d.Chunks, err: errReader})
		if err == nil && !terminated {
			return fail("the reader fails after %d of %d bytes and ParseRaw returns no error", n, len(data))
		}
		_, err = yaml.Parse(&chunkReader{data: data[:n], chunks: d.Chunks, err: errReader})
		if err == nil && !terminated {
			return fail("the reader fails after %d of %d bytes and Parse returns no error", n, len(data))
		}
	}
	got, err := yaml.ParseRaw(&chunkReader{data: data, chunks: d.Chunks, err: io.EOF})
	if err != nil {
		// a document that is no valid yaml on its own.
		for _, doc := range refSplit(lines) {
			if _, err := yaml.ParseRawString(doc); err != nil {
				return c.Discard("invalid yaml")
			}
		}
		return fail("each document is accepted on its own, and the file is rejected: %v", err)
	}
	want := refSplit(lines)
	c.NonTrivialIf(len(want) > 1 || long)
	c.ClassIf(len(want) > 1, "several documents")
	if len(got) != len(want) {
		return fail("got %d documents, want %d", len(got), len(want))
	}
	for i := range want {
		if string(got[i].Data) != want[i] {
			return fail("document %d is %q, want %q", i, clip(string(got[i].Data), 300), clip(want[i], 300))
		}
	}
	// all of the entry points read the same.
	path := filepath.Join(c.scratch, "doc.yml")
	if err := os.WriteFile(path, data, 0644); err != nil {
		panic("harness: " + err.Error())
	}
	defer os.Remove(path)
	a, err1 := yaml.ParseRawBytes(data)
	b, err2 := yaml.ParseRawString(string(data))
	f, err3 := yaml.ParseRawFile(path)
	if err1 != nil || err2 != nil || err3 != nil {
		return fail("ParseRaw succeeds, and ParseRawBytes: %v, ParseRawString: %v, ParseRawFile: %v", err1, err2, err3)
	}
	for _, x := range [][]*yaml.RawResource{a, b, f} {
		if s := same(x, got); s != "" {
			return fail("the entry points disagree: %s", s)
		}
	}
	m0, e0 := yaml.Parse(&chunkReader{data: data, chunks: d.Chunks, err: io.EOF})
	m1, e1 := yaml.ParseBytes(data)
	m2, e2 := yaml.ParseString(string(data))
	m3, e3 := yaml.ParseFile(path)
	if (e0 == nil) != (e1 == nil) || (e0 == nil) != (e2 == nil) || (e0 == nil) != (e3 == nil) {
		return fail("the entry points disagree: %v, %v, %v, %v", e0, e1, e2, e3)
	}
	if e0 != nil {
		return nil
	}
	c.Class("manifest")
	for _, m := range []*yaml.Manifest{m1, m2, m3} {
		if s := same(m, m0); s != "" {
			return fail("the entry points disagree: %s", s)
		}
	}
	// each document is parsed as it is on its own.
	if len(m0.Resources) != len(want) {
		return fail("%d documents make %d resources", len(want), len(m0.Resources))
	}
	for i := range want {
		// one carriage return before a newline is part of the
		// line ending.
		one, err := yaml.ParseString(strings.Replace(want[i], "\r\n", "\r\r\n", -1))
		if err != nil {
			return fail("document %d is rejected on its own: %v", i, err)
		}
		if len(one.Resources) != 1 {
			return fail("document %d makes %d resources on its own", i, len(one.Resources))
		}
		if s := same(m0.Resources[i], one.Resources[0]); s != "" {
			return fail("document %d differs from its own parse: %s", i, s)
		}
	}
	return nil
}

// ---- C03: parsing keeps the meaning ----

func classStyle(c *C, f map[string]int) {
	for k := range f {
		c.Class("style: " + k)
	}
}

func (m *ManifestM) steps() int {
	n := 0
	for _, p := range m.pipes() {
		n += len(p.Steps) + len(p.Services)
	}
	return n
}

func checkFidelity(c *C, f FileCase) *V {
	features := map[string]int{}
	text, nodes := f.text(features)
	classStyle(c, features)
	c.NonTrivialIf(len(features) > 0 || f.M.steps() > 0)
	c.ClassIf(len(f.M.R) > 1, "several resources")
	c.ClassIf(f.M.steps() > 0, "containers")
	m, err := yaml.ParseString(text)
	want := f.M.drone()
	if err != nil {
		if !agrees(text, nodes) {
			return c.Discard("the emitter is not certain")
		}
		return fail("a valid manifest is rejected: %v\n%s", err, text)
	}
	if s := same(m.Resources, want.Resources); s != "" {
		if !agrees(text, nodes) {
			return c.Discard("the emitter is not certain")
		}
		return fail("%s\n%s", s, text)
	}
	for i := range want.Resources {
		if fmt.Sprintf("%T", m.Resources[i]) != fmt.Sprintf("%T", want.Resources[i]) {
			return fail("resource %d is a %T, want %T", i, m.Resources[i], want.Resources[i])
		}
		if m.Resources[i].GetKind() != yamlKind(&f.M.R[i]) || m.Resources[i].GetVersion() != yamlVersion(&f.M.R[i]) {
			return fail("resource %d has kind %q and version %q", i, m.Resources[i].GetKind(), m.Resources[i].GetVersion())
		}
		kind := ""
		switch m.Resources[i].(type) {
		case *yaml.Cron:
			kind = yaml.KindCron
		case *yaml.Secret:
			kind = yaml.KindSecret
		case *yaml.Registry:
			kind = yaml.KindRegistry
		case *yaml.Signature:
			kind = yaml.KindSignature
		default:
			if yamlKind(&f.M.R[i]) == "pipeline" {
				kind = yaml.KindPipeline
			}
		}
		if kind != "" && kind != m.Resources[i].GetKind() {
			return fail("resource %d is a %T and has kind %q, which is not the constant %q", i, m.Resources[i], m.Resources[i].GetKind(), kind)
		}
	}
	raw, err := yaml.ParseRawString(text)
	if err != nil || len(raw) != len(want.Resources) {
		return fail("ParseRaw: %d resources, %v", len(raw), err)
	}
	for i := range raw {
		if raw[i].Kind != yamlKind(&f.M.R[i]) || raw[i].Version != yamlVersion(&f.M.R[i]) {
			return fail("raw resource %d has kind %q and version %q", i, raw[i].Kind, raw[i].Version)
		}
	}
	return nil
}

// ---- C03: values of the wrong type ----

// MisuseCase is a manifest with one value of a wrong type, or
// a document without a kind.
type MisuseCase struct {
	M     ManifestM
	Style []int
	Site  int
	Wrong int
}

type site struct {
	n     *Node // the mapping or sequence that holds the value
	i     int
	class string
}

var misuseClass = map[string]string{
	"version": "string", "type": "string", "name": "string", "image": "string", "hmac": "string",
	"context": "string", "dockerfile": "string", "failure": "string", "network_mode": "string", "protocol": "string",
	"pull": "string", "shell": "string", "user": "string", "working_dir": "string", "medium": "string",
	"path": "string", "base": "string", "os": "string", "arch": "string", "variant": "string",
	"schedule": "string", "branch": "string", "target": "string", "key": "string",
	"args": "texts", "labels": "texts", "node": "texts", "matrix": "texts",
	"cache_from": "strings", "command": "strings", "commands": "strings", "entrypoint": "strings", "depends_on": "strings",
	"dns": "strings", "dns_search": "strings", "extra_hosts": "strings", "image_pull_secrets": "strings",
	"disable": "bool", "skip_verify": "bool", "detach": "bool", "privileged": "bool",
	"depth": "int", "limit": "int", "port": "int", "cpu": "int", "memory": "int", "size_limit": "int",
	"build": "short", "push": "short",
	"devices": "structs", "volumes": "structs", "ports": "structs", "services": "structs", "steps": "structs",
	"clone": "struct", "concurrency": "struct", "platform": "struct", "trigger": "struct", "when": "struct", "workspace": "struct",
	"resources": "struct", "limits": "struct", "requests": "struct", "temp": "struct", "spec": "struct", "deployment": "struct", "get": "struct",
	"environment": "any texts", "settings": "any",
}

func wrongValue(class string, k int) *Node {
	m := func() *Node { return nMap().add("zz", nOpq("a")) }
	l := func() *Node { return nList(nOpq("zz")) }
	w := func() *Node { return nOpq("zz") }
	var alts []*Node
	switch class {
	case "kind":
		alts = []*Node{nil, nNull(), nStr("")}
	case "string":
		alts = []*Node{m(), l(), nList(m())}
	case "strings":
		alts = []*Node{m(), nList(m()), nList(nOpq("a"), l())}
	case "texts":
		alts = []*Node{w(), l(), nMap().add("a", l()), nMap().add("a", m()), nList(m())}
	case "any texts":
		alts = []*Node{w(), l(), nMap().add("A", l())}
	case "any":
		alts = []*Node{w(), l()}
	case "bool", "int":
		alts = []*Node{m(), l(), w()}
	case "short":
		alts = []*Node{l(), nMap().add("image", l())}
	case "structs":
		alts = []*Node{m(), w(), nList(w()), nList(l())}
	case "struct":
		alts = []*Node{w(), l(), nLit("1")}
	case "condition":
		alts = []*Node{nMap().add("include", m()), nMap().add("exclude", nList(m())), nList(m()), nList(nOpq("a"), l()), nMap().add("exclude", nList(nOpq("a"), l()))}
	}
	return alts[k%len(alts)]
}

// sites lists the values of the mapping that have a type.
func sites(n *Node, in string, out []site) []site {
	if n.Kind != "map" {
		return out
	}
	for i, k := range n.Keys {
		if k.Kind != "str" {
			continue
		}
		class := misuseClass[k.Text]
		switch {
		case in == "" && k.Text == "kind":
			class = "kind"
		case in == "" && k.Text == "data":
			class = "string"
			for j, o := range n.Keys {
				if o.Text == "kind" && n.Items[j].Text == "registry" {
					class = "texts"
				}
			}
		case in == "volumes" && k.Text == "host":
			class = "struct"
		case in == "ports" && k.Text == "host":
			class = "int"
		case (in == "when" || in == "trigger") && k.Text != "matrix":
			class = "condition"
		}
		if class == "" {
			continue
		}
		out = append(out, site{n, i, class})
		v := n.Items[i]
		for (v.Kind == "alt" || v.Kind == "zero") && len(v.Items) > 0 {
			v = v.Items[len(v.Items)-1]
		}
		switch class {
		case "struct", "short":
			// an alternative is replaced by the one that is descended.
			if v.Kind == "map" {
				n.Items[i] = v
				out = sites(v, k.Text, out)
			}
		case "structs":
			for j, x := range v.Items {
				if x.Kind == "alt" {
					x = x.Items[len(x.Items)-1]
					v.Items[j] = x
				}
				out = sites(x, k.Text, out)
			}
		}
	}
	return out
}

func genMisuse(t *rapid.T) MisuseCase {
	return MisuseCase{M: genManifest(t, optText()), Style: genStyle(t), Site: num(t, 0, 9999), Wrong: num(t, 0, 59)}
}

func checkMisuse(c *C, in MisuseCase) *V {
	nodes := in.M.nodes()
	var all []site
	for _, n := range nodes {
		all = append(all, sites(n, "", nil)...)
	}
	if len(all) == 0 {
		return c.Discard("no values")
	}
	s := all[in.Site%len(all)]
	if in.Site%17 == 0 {
		// kinds are rare among the values.
		for _, x := range all {
			if x.class == "kind" {
				s = x
			}
		}
	}
	key := s.n.Keys[s.i].Text
	if v := wrongValue(s.class, in.Wrong); v == nil {
		s.n.Keys = append(append([]*Node(nil), s.n.Keys[:s.i]...), s.n.Keys[s.i+1:]...)
		s.n.Items = append(append([]*Node(nil), s.n.Items[:s.i]...), s.n.Items[s.i+1:]...)
	} else {
		s.n.Items[s.i] = v
	}
	c.Class(s.class)
	text, nodes := emitDocs(nodes, in.Style, map[string]int{})
	c.NonTrivial()
	if _, err := yaml.ParseString(text); err == nil {
		if !agrees(text, nodes) {
			return c.Discard("the emitter is not certain")
		}
		if s.class == "kind" {
			return fail("a document without a kind is accepted\n%s", text)
		}
		return fail("%s has a value of a wrong type, which is ignored\n%s", key, text)
	}
	return nil
}

func yamlKind(r *ResourceM) string {
	switch {
	case r.Pipe != nil:
		return r.Pipe.Kind
	case r.Cron != nil:
		return r.Cron.Kind
	case r.Sec != nil:
		return r.Sec.Kind
	case r.Reg != nil:
		return r.Reg.Kind
	}
	return r.Sig.Kind
}

func yamlVersion(r *ResourceM) string {
	switch {
	case r.Pipe != nil:
		return r.Pipe.Version
	case r.Cron != nil:
		return r.Cron.Version
	case r.Sec != nil:
		return r.Sec.Version
	case r.Reg != nil:
		return r.Reg.Version
	}
	return r.Sig.Version
}

// ---- C04: encode and decode ----

// jsonDomain says that json can hold the value: no keys that
// are not strings, no infinity.
func (v Val) jsonDomain() bool {
	switch v.K {
	case "f":
		return !strings.Contains(v.F, "inf") && !strings.Contains(v.F, "nan")
	case "l":
		for _, x := range v.L {
			if !x.jsonDomain() {
				return false
			}
		}
	case "m":
		for _, kv := range v.M {
			if kv.K.K != "s" || !kv.V.jsonDomain() {
				return false
			}
		}
	}
	return true
}

// toJSONDomain replaces what json cannot hold.
func toJSONDomain(m *ManifestM) {
	for _, p := range m.pipes() {
		for _, steps := range [][]StepM{p.Steps, p.Services} {
			for i := range steps {
				for j := range steps[i].Settings {
					s := &steps[i].Settings[j]
					if !s.V.jsonDomain() {
						s.V = Val{K: "s", S: "a"}
					}
				}
			}
		}
	}
}

func genJSONFile(t *rapid.T) ManifestM {
	m := genManifest(t, optText())
	toJSONDomain(&m)
	for _, p := range m.pipes() {
		// a pipeline made by a program has no kind.
		if chance(t, 6) {
			p.Kind = ""
		}
	}
	return m
}

func checkJSON(c *C, m ManifestM) *V {
	want := m.drone()
	c.NonTrivialIf(m.steps() > 0 || len(m.R) > 1)
	b, err := json.Marshal(want)
	if err != nil {
		return fail("cannot encode: %v", err)
	}
	if s := same(want.Resources, m.drone().Resources); s != "" {
		return fail("encoding changes the manifest: %s", s)
	}
	got := new(yaml.Manifest)
	if err := json.Unmarshal(b, got); err != nil {
		return fail("cannot decode %s: %v", b, err)
	}
	if s := same(got.Resources, want.Resources); s != "" {
		return fail("%s\njson: %s", s, clip(string(b), 1500))
	}
	b2, err := json.Marshal(got)
	if err != nil || !bytes.Equal(b, b2) {
		return fail("the json is not stable (%v): %s, then %s", err, b, b2)
	}
	return nil
}

// JSONMisuse is a manifest in json one of whose values has a
// type that its attribute does not have.
type JSONMisuse struct {
	M     ManifestM `json:"m"`
	Site  int       `json:"site"`
	Wrong int       `json:"wrong"`
}

func genJSONMisuse(t *rapid.T) JSONMisuse {
	return JSONMisuse{genJSONFile(t), num(t, 0, 9999), num(t, 0, 9)}
}

// jsonSites lists the values of a json document, but not the
// values of parameters, which have any type.
func jsonSites(v interface{}, path string, set func(interface{}), visit func(path string, v interface{}, set func(interface{}))) {
	visit(path, v, set)
	switch v := v.(type) {
	case map[string]interface{}:
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			k := k
			if k == "value" {
				continue
			}
			jsonSites(v[k], path+"."+k, func(x interface{}) { v[k] = x }, visit)
		}
	case []interface{}:
		for i := range v {
			i := i
			jsonSites(v[i], path+"[]", func(x interface{}) { v[i] = x }, visit)
		}
	}
}

func checkJSONMisuse(c *C, in JSONMisuse) *V {
	b, err := json.Marshal(in.M.drone())
	if err != nil {
		return fail("cannot encode: %v", err)
	}
	var doc interface{}
	if err := json.Unmarshal(b, &doc); err != nil {
		return fail("the encoded manifest is no json: %v\n%s", err, b)
	}
	type site struct {
		path string
		v    interface{}
		set  func(interface{})
	}
	var all []site
	jsonSites(doc, "", func(x interface{}) { doc = x }, func(path string, v interface{}, set func(interface{})) {
		if v != nil {
			all = append(all, site{path, v, set})
		}
	})
	s := all[in.Site%len(all)]
	if in.Site%11 == 0 {
		// kinds are rare among the values.
		for _, x := range all {
			if x.path == "[].kind" {
				s = x
			}
		}
	}
	var wrong []interface{}
	switch s.v.(type) {
	case map[string]interface{}:
		wrong = []interface{}{"a", 1.0, true, []interface{}{}, []interface{}{map[string]interface{}{}}}
	case []interface{}:
		wrong = []interface{}{"a", 1.0, false, map[string]interface{}{}}
	case string:
		wrong = []interface{}{1.0, true, map[string]interface{}{}, []interface{}{"a"}}
	case bool:
		wrong = []interface{}{"true", 1.0, map[string]interface{}{}, []interface{}{true}}
	default:
		wrong = []interface{}{"1", true, map[string]interface{}{}, []interface{}{1.0}}
	}
	s.set(wrong[in.Wrong%len(wrong)])
	text, err := json.Marshal(doc)
	if err != nil {
		return fail("%v", err)
	}
	c.NonTrivial()
	c.Class(fmt.Sprintf("%T", s.v))
	if err := json.Unmarshal(text, new(yaml.Manifest)); err == nil {
		return fail("%s has a value of a wrong type, which is ignored\n%s", s.path, text)
	}
	return nil
}

func checkEncode(c *C, m ManifestM) *V {
	want := m.drone()
	if strings.Contains(string(marshalCase(m)), `"<<"`) {
		return c.Discard("the yaml library writes the key << as a merge key")
	}
	c.NonTrivialIf(m.steps() > 0 || len(m.R) > 1)
	b, err := want.Encode()
	if err != nil {
		return fail("cannot encode: %v", err)
	}
	got, err := yaml.ParseBytes(b)
	if err != nil {
		return fail("cannot parse: %v\n%s", err, b)
	}
	if s := sameNum(got.Resources, want.Resources); s != "" {
		return fail("%s\nyaml:\n%s", s, clip(string(b), 1500))
	}
	return nil
}

func init() {
	register(&Prop{ID: "C01", Title: "any input is handled or rejected: no panic, no hang",
		Assumptions: []string{"cases that take longer than 90 s do not end"},
		Subs: []Sub{
			sub("bytes", "random bytes, concatenated yaml fragments and mutated files of each format, through every entry point; non-trivial: not empty", 4000, 160000, genBytes, everything).shards(4),
			sub("files", "well-formed files of each format, through every entry point; non-trivial: not empty", 6000, 160000, genFiles, everything).shards(4),
			sub("types", "well-formed files of each format in which nodes are replaced by nodes of another type; non-trivial: not empty", 4000, 160000, genConfused, everything).shards(4),
			sub("large", "large, regular files of 40 kinds (nested, dense dependencies, chains of aliases, long texts and lists, many jobs and axes), through every entry point; non-trivial: not empty", 240, 6000, genLarge, checkLarge).shards(4),
			sub("json", "json manifests, random and mutated; non-trivial: decodes to at least one resource", 3000, 100000, genJSON, checkJSONTotal),
		}})
	register(&Prop{ID: "C02", Title: "a file is split into its documents without loss",
		Subs: []Sub{
			sub("documents", "files of separators, terminators, lines up to 3 MB, CRLF, read in chunks or failing midway; non-trivial: several documents, a long line or a reader error", 2500, 60000, genDoc, checkDocs).shards(8),
		}})
	register(&Prop{ID: "C03", Title: "parsing keeps the meaning, however the file is written",
		Subs: []Sub{
			sub("fidelity", "a model manifest written with random yaml style (block, flow, quoting, short and long forms, anchors, merge keys, comments); non-trivial: has containers or style features", 4000, 160000, genFile(optText()), checkFidelity).shards(8),
			sub("misuse", "model manifests in which one value has a type that its attribute does not have, or the kind is missing, in random yaml style, must be rejected; non-trivial: always", 8000, 160000, genMisuse, checkMisuse).shards(4),
		}})
	register(&Prop{ID: "C04", Title: "encoding a manifest and reading it back is the identity",
		Subs: []Sub{
			sub("json", "model manifests through json; non-trivial: has containers or several resources", 3000, 120000, genJSONFile, checkJSON).shards(4),
			sub("misuse", "model manifests in json in which one value has a type that its attribute does not have must be rejected; non-trivial: always", 4000, 120000, genJSONMisuse, checkJSONMisuse).shards(4),
			sub("yaml", "model manifests through Encode and Parse; non-trivial: has containers or several resources", 3000, 120000, func(t *rapid.T) ManifestM { return genManifest(t, optText()) }, checkEncode).shards(4),
		}})
}
