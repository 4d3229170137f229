package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/pretty"
	"pgregory.net/rapid"
)

func format(m *yaml.Manifest) string {
	var buf bytes.Buffer
	pretty.Print(&buf, m)
	return buf.String()
}

func dropNull(ms []MountM) (out []MountM) {
	for _, m := range ms {
		if !m.Null {
			out = append(out, m)
		}
	}
	return
}

// formatted is what a manifest means after it was formatted: null
// entries are gone, an absent platform is the default, and the
// constraints of the legacy matrix are gone.
func (m ManifestM) formatted() ManifestM {
	var out ManifestM
	for _, r := range m.R {
		if r.Pipe == nil {
			out.R = append(out.R, r)
			continue
		}
		p := *r.Pipe
		if p.OS == "" && p.Arch == "" && p.Variant == "" && p.OSVersion == "" {
			p.OS, p.Arch = "linux", "amd64"
		}
		p.Trigger.Matrix = nil
		p.Volumes = nil
		for _, v := range r.Pipe.Volumes {
			if !v.Null {
				p.Volumes = append(p.Volumes, v)
			}
		}
		steps := func(in []StepM) (out []StepM) {
			for _, s := range in {
				if s.Null {
					continue
				}
				s.When.Matrix = nil
				s.Devices, s.Volumes = dropNull(s.Devices), dropNull(s.Volumes)
				var ports []PortM
				for _, p := range s.Ports {
					if !p.Null {
						ports = append(ports, p)
					}
				}
				s.Ports = ports
				out = append(out, s)
			}
			return
		}
		p.Steps, p.Services = steps(p.Steps), steps(p.Services)
		out.R = append(out.R, ResourceM{Pipe: &p})
	}
	return out
}

func genFormat(t *rapid.T) ManifestM {
	m := genManifest(t, optText())
	for _, p := range m.pipes() {
		for _, s := range containersOf(p) {
			if s.Build != nil {
				s.Build.Image = noNull(s.Build.Image)
			}
			if s.Push != nil {
				*s.Push = noNull(*s.Push)
			}
		}
	}
	if chance(t, 2) {
		caseTwins(t, reflect.ValueOf(&m))
	}
	return m
}

// otherCase returns the text with the case of one letter changed.
func otherCase(t *rapid.T, s string) string {
	var at []int
	for i := 0; i < len(s); i++ {
		if c := s[i] | 0x20; c >= 'a' && c <= 'z' {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return s
	}
	i := pick(t, at)
	return s[:i] + string([]byte{s[i] ^ 0x20}) + s[i+1:]
}

// caseTwins adds keys to the maps of a model that differ from
// other keys only in case.
func caseTwins(t *rapid.T, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			caseTwins(t, v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			caseTwins(t, v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			caseTwins(t, v.Index(i))
		}
		if v.Len() == 0 || !chance(t, 2) {
			return
		}
		i := num(t, 0, v.Len()-1)
		twin := reflect.New(v.Type().Elem()).Elem()
		twin.Set(v.Index(i))
		var key func(reflect.Value) *string
		switch twin.Interface().(type) {
		case KV:
			key = func(v reflect.Value) *string { return &v.Addr().Interface().(*KV).K }
		case EnvM:
			key = func(v reflect.Value) *string { return &v.Addr().Interface().(*EnvM).K }
		case SetM:
			key = func(v reflect.Value) *string { return &v.Addr().Interface().(*SetM).K }
		case KVal:
			if v.Index(i).Addr().Interface().(*KVal).K.K != "s" {
				return
			}
			key = func(v reflect.Value) *string { return &v.Addr().Interface().(*KVal).K.S }
		default:
			return
		}
		k := otherCase(t, *key(twin))
		*key(twin) = k
		for j := 0; j < v.Len(); j++ {
			if *key(v.Index(j)) == k {
				return
			}
		}
		v.Set(reflect.Append(v, twin))
	}
}

func hostile(m *ManifestM) bool {
	return strings.ContainsAny(format(m.drone()), "\"\\")
}

func checkFormat(c *C, m ManifestM) *V {
	in := m.drone()
	text := format(in)
	c.NonTrivialIf(m.steps() > 0 || len(m.R) > 1)
	c.ClassIf(m.steps() > 0, "containers")
	c.ClassIf(hostile(&m), "quoted text")
	c.ClassIf(len(m.R) > 1, "several resources")
	out, err := yaml.ParseString(text)
	if err != nil {
		return fail("the formatted manifest does not parse: %v\n%s", err, text)
	}
	f := m.formatted()
	// secret data is base64: white space has no meaning.
	strip := func(s string) string { return strings.Join(strings.Fields(s), "") }
	for _, r := range out.Resources {
		switch r := r.(type) {
		case *yaml.Secret:
			r.Data = strip(r.Data)
		case *yaml.Registry:
			for k := range r.Data {
				r.Data[k] = strip(r.Data[k])
			}
		}
	}
	if s := sameNum(out.Resources, f.drone().Resources); s != "" {
		return fail("%s\n%s", s, text)
	}
	for i := range f.R {
		if fmt.Sprintf("%T", out.Resources[i]) != fmt.Sprintf("%T", f.R[i].drone()) {
			return fail("resource %d is a %T\n%s", i, out.Resources[i], text)
		}
	}
	// separators and terminators stand alone.
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "---") && l != "---" || strings.HasPrefix(l, "...") && l != "..." {
			return fail("the line %q is neither a separator nor a terminator\n%s", l, text)
		}
	}
	// it is readable by other yaml parsers as well.
	raw, err := yaml.ParseRawString(text)
	if err != nil || len(raw) != len(f.R) {
		return fail("%d documents (%v)\n%s", len(raw), err, text)
	}
	return nil
}

func checkFormatStable(c *C, f FileCase) *V {
	m := f.M.drone()
	c.NonTrivialIf(f.M.steps() > 0 || len(f.M.R) > 1)
	first := format(m)
	if s := same(m.Resources, f.M.drone().Resources); s != "" {
		return fail("formatting changes the manifest: %s", s)
	}
	for i := 0; i < 4; i++ {
		if again := format(f.M.drone()); again != first {
			return fail("formatted twice:\n%s\nthen\n%s", first, again)
		}
	}
	out, err := yaml.ParseString(first)
	if err != nil {
		return fail("the formatted manifest does not parse: %v\n%s", err, first)
	}
	if second := format(out); second != first {
		return fail("not idempotent:\n%s\nthen\n%s", first, second)
	}
	// however the file is written, it formats the same.
	text, nodes := f.text(nil)
	spelled, err := yaml.ParseString(text)
	if err != nil {
		if !agrees(text, nodes) {
			return c.Discard("the emitter is not certain")
		}
		return fail("a valid manifest is rejected: %v\n%s", err, text)
	}
	if got := format(spelled); got != first {
		if !agrees(text, nodes) {
			return c.Discard("the emitter is not certain")
		}
		return fail("the spelling matters:\n%s\nis formatted as\n%s\nwant\n%s", text, got, first)
	}
	return nil
}

func init() {
	register(&Prop{ID: "C11", Title: "formatting a manifest keeps its meaning",
		Subs: []Sub{
			sub("format", "model manifests with hostile scalars, formatted and parsed again; non-trivial: has containers or several resources", 12000, 320000, genFormat, checkFormat).shards(8),
		}})
	register(&Prop{ID: "C12", Title: "formatting is deterministic and idempotent",
		Subs: []Sub{
			sub("stable", "model manifests formatted repeatedly, formatted after formatting, and formatted from another spelling; non-trivial: has containers or several resources", 8000, 160000, func(t *rapid.T) FileCase { return FileCase{genFormat(t), genStyle(t)} }, checkFormatStable).shards(8),
		}})
}
