package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/linter"
	"github.com/drone/drone-yaml/yaml/pretty"
	"github.com/drone/drone-yaml/yaml/signer"
	"pgregory.net/rapid"
)

// ---- C33: reading, checking and writing are pure ----

// LibCase is a history of operations on files.
type LibCase struct {
	Files    []LibFile `json:"files"`
	Ops      []LibOp   `json:"ops"`
	Parallel int       `json:"parallel"`
	Cold     bool      `json:"cold,omitempty"`
}

// LibFile is a file and its name.
type LibFile struct {
	Name string `json:"name"`
	Data []byte `json:"data"`
	Ref  string `json:"ref,omitempty"`
	URL  string `json:"url,omitempty"`
}

// LibOp is one operation on one file.
type LibOp struct {
	Op   string `json:"op"`
	File int    `json:"file"`
	// Shared says that the operation uses the manifest that was
	// read in the beginning, and not one of its own.
	Shared bool `json:"shared,omitempty"`
}

var libOps = []string{"raw", "parse", "fmt", "fmt", "lint", "manifest", "encode", "json", "convert", "convert", "sign", "update", "verify"}

func genLib(t *rapid.T) LibCase {
	in := LibCase{Parallel: num(t, 0, 4), Cold: chance(t, 2)}
	in.Files = listOf(t, 1, 3, func(t *rapid.T) LibFile {
		salt := rapid.StringMatching(`[a-z]{8}`).Draw(t, "salt")
		f := LibFile{Ref: genRef(t), URL: genURL(t).URL, Name: ".drone.yml"}
		switch num(t, 0, 6) {
		case 0, 1:
			m := genLegacy(t)
			s, _ := emitDocs([]*Node{m.node()}, genStyle(t), nil)
			f.Data = []byte(s)
		case 2:
			m := genGitlab(t)
			s, _ := emitDocs([]*Node{m.node()}, genStyle(t), nil)
			f.Name, f.Data = ".gitlab-ci.yml", []byte(s)
		case 3:
			m := genBitbucket(t)
			s, _ := emitDocs([]*Node{m.node()}, genStyle(t), nil)
			f.Name, f.Data = "bitbucket-pipelines.yml", []byte(s)
		default:
			m := genManifest(t, optText())
			for i := range m.R {
				if p := m.R[i].Pipe; p != nil {
					p.Name += salt
					for j := range p.Steps {
						if !p.Steps[j].Null && chance(t, 2) {
							p.Steps[j].Image += salt
							p.Steps[j].Pull += salt
						}
					}
				}
			}
			fc := FileCase{m, genStyle(t)}
			s, _ := fc.text(nil)
			f.Data = []byte(s)
		}
		if chance(t, 10) {
			f.Data = mutateBytes(t, f.Data)
		}
		return f
	})
	in.Ops = listOf(t, 2, 8, func(t *rapid.T) LibOp {
		return LibOp{pick(t, libOps), num(t, 0, len(in.Files)-1), chance(t, 2)}
	})
	return in
}

// outcomeLib is a result, that can be looked at more than once.
type outcomeLib func() string

func textOf(x interface{}) string {
	m := canon(x)
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		b.WriteString(k + "=" + m[k] + "\n")
	}
	return b.String()
}

func bytesOf(b []byte, err error) outcomeLib {
	return func() string { return fmt.Sprintf("%s\nerror: %v", b, err) }
}

// guarded is a copy of b in a buffer with more bytes, which
// nobody may write.
func guarded(b []byte) []byte {
	buf := make([]byte, len(b)+16)
	for i := range buf {
		buf[i] = 0xaa
	}
	return buf[:copy(buf, b)]
}

// spareWritten says that a byte after b was written.
func spareWritten(b []byte) bool {
	for _, x := range b[len(b) : len(b)+16] {
		if x != 0xaa {
			return true
		}
	}
	return false
}

func (f *LibFile) run(op string, m *yaml.Manifest, key []byte) outcomeLib {
	switch op {
	case "raw":
		r, err := yaml.ParseRawBytes(f.Data)
		return func() string { return fmt.Sprintf("%s\nerror: %v", textOf(r), err) }
	case "parse":
		r, err := yaml.ParseBytes(f.Data)
		return func() string { return fmt.Sprintf("%s\nerror: %v", textOf(r), err) }
	case "convert":
		return bytesOf(converter.Convert(f.Data, converter.Metadata{Filename: f.Name, Ref: f.Ref, URL: f.URL}))
	case "sign":
		h, err := signer.Sign(f.Data, key)
		return bytesOf([]byte(h), err)
	case "update":
		return bytesOf(signer.SignUpdate(f.Data, key))
	case "verify":
		ok, err := signer.Verify(f.Data, key)
		return bytesOf([]byte(fmt.Sprint(ok)), err)
	}
	var err error
	if m == nil {
		m, err = yaml.ParseBytes(f.Data)
		if err != nil {
			return bytesOf(nil, err)
		}
	}
	switch op {
	case "fmt":
		b := new(bytes.Buffer)
		pretty.Print(b, m)
		return bytesOf(b.Bytes(), nil)
	case "lint":
		var errs []error
		for _, r := range m.Resources {
			errs = append(errs, linter.Lint(r, false), linter.Lint(r, true))
		}
		return bytesOf(nil, fmt.Errorf("%v", errs))
	case "manifest":
		return bytesOf(nil, fmt.Errorf("%v %v", linter.Manifest(m, false), linter.Manifest(m, true)))
	case "encode":
		return bytesOf(m.Encode())
	}
	return bytesOf(json.Marshal(m))
}

func checkLib(c *C, in LibCase) *V {
	var orig []string
	files := make([]LibFile, len(in.Files))
	for i, f := range in.Files {
		orig = append(orig, string(f.Data))
		f.Data = guarded(f.Data)
		files[i] = f
	}
	in.Files = files
	const keyText = "0123456789abcdef0123456789abcdef"
	key := guarded([]byte(keyText))
	c.NonTrivialIf(len(in.Ops) > 1)
	c.ClassIf(in.Parallel > 1, "parallel")
	c.ClassIf(in.Parallel > 1 && in.Cold, "parallel first")
	type result struct {
		op   LibOp
		when string
		get  outcomeLib
		text string
	}
	var all []result
	manifests := make([]*yaml.Manifest, len(in.Files))
	shapes := make([]string, len(in.Files))
	for i := range in.Files {
		if m, err := yaml.ParseBytes(in.Files[i].Data); err == nil {
			manifests[i], shapes[i] = m, textOf(m)
		}
	}
	one := func(o LibOp, when string) result {
		var m *yaml.Manifest
		if o.Shared {
			m = manifests[o.File]
		}
		g := in.Files[o.File].run(o.Op, m, key)
		return result{o, when, g, g()}
	}
	sequential := func() *V {
		for n, o := range in.Ops {
			all = append(all, one(o, fmt.Sprintf("operation %d", n)))
		}
		return nil
	}
	parallel := func() *V {
		if in.Parallel < 2 {
			return nil
		}
		var wg sync.WaitGroup
		out := make([]*V, in.Parallel)
		done := make([][]result, in.Parallel)
		start := make(chan struct{})
		for g := 0; g < in.Parallel; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						out[g] = fail("panic in a parallel operation: %v", r)
					}
				}()
				<-start
				for n := range in.Ops {
					o := in.Ops[(n+g)%len(in.Ops)]
					done[g] = append(done[g], one(o, fmt.Sprintf("parallel operation %d-%d", g, n)))
				}
			}(g)
		}
		close(start)
		wg.Wait()
		for g := range out {
			if out[g] != nil {
				return out[g]
			}
			all = append(all, done[g]...)
		}
		return nil
	}
	phases := []func() *V{sequential, parallel}
	if in.Cold {
		phases = []func() *V{parallel, sequential}
	}
	for _, f := range phases {
		if v := f(); v != nil {
			return v
		}
	}
	if string(key) != keyText || spareWritten(key) {
		return fail("the key is changed: %q", key[:cap(key)])
	}
	for i := range in.Files {
		if spareWritten(in.Files[i].Data) {
			return fail("the memory after file %d is changed\n%s", i, orig[i])
		}
		if string(in.Files[i].Data) != orig[i] {
			return fail("the bytes of file %d are changed\n%s\n---- before ----\n%s", i, in.Files[i].Data, orig[i])
		}
		if manifests[i] != nil && textOf(manifests[i]) != shapes[i] {
			return fail("the manifest of file %d is changed\n%s\n---- before ----\n%s\n---- the file ----\n%s", i, textOf(manifests[i]), shapes[i], orig[i])
		}
	}
	// the same operation gives the same result, which is still
	// the same in the end.
	first := map[string]result{}
	for _, r := range all {
		if s := r.get(); s != r.text {
			return fail("the result of %s (%s of file %d) is changed later\n%s\n---- before ----\n%s", r.when, r.op.Op, r.op.File, s, r.text)
		}
		k := fmt.Sprintf("%s %d", r.op.Op, r.op.File)
		f, ok := first[k]
		if !ok {
			fresh := r.op
			fresh.Shared = false
			f = one(fresh, "a last operation")
			first[k] = f
		}
		if f.text != r.text {
			return fail("%s of file %d: %s and %s differ\n%s\n---- and ----\n%s\n---- the file ----\n%s", r.op.Op, r.op.File, r.when, f.when, r.text, f.text, orig[r.op.File])
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C33", Title: "Reading, checking, writing and signing are pure functions", Race: true,
		Subs: []Sub{
			sub("history", "histories of operations (parse, format, lint, encode, convert, sign, verify) on up to three files, in sequence and in parallel under the race detector, with manifests of their own and shared ones: same operation, same result; results, files and manifests are unchanged in the end; non-trivial: two or more operations", 2400, 40000, genLib, checkLib).shards(8)}})
}
