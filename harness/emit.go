package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	yamlv3 "gopkg.in/yaml.v3"
)

// Node is a yaml node to be written.
//
//	str   text in a position that is read as a string
//	opq   text in a position that is read as anything
//	lit   a literal: number, boolean, null; Alts lists its spellings
//	list  a sequence
//	map   a mapping (Keys, Items)
//	alt   one of Items (equivalent representations)
//	zero  a value that may be left out; Items[0] is its explicit form
type Node struct {
	Kind  string
	Text  string
	Alts  []string
	Keys  []*Node
	Items []*Node

	Ordered bool   // the order of the keys matters
	NoMerge bool   // do not use merge keys
	Anchor  string // write this anchor (maps)
}

// nMerge is a merge key that refers to an anchor.
func (n *Node) merge(target *Node) *Node {
	n.Keys = append([]*Node{nLit("<<")}, n.Keys...)
	n.Items = append([]*Node{{Kind: "alias", Text: target.Anchor, Items: []*Node{target}}}, n.Items...)
	n.Ordered, n.NoMerge = true, true
	return n
}

func nStr(s string) *Node { return &Node{Kind: "str", Text: s} }
func nOpq(s string) *Node { return &Node{Kind: "opq", Text: s} }
func nLit(alts ...string) *Node {
	return &Node{Kind: "lit", Text: alts[0], Alts: alts}
}
func nList(items ...*Node) *Node { return &Node{Kind: "list", Items: items} }
func nAlt(items ...*Node) *Node  { return &Node{Kind: "alt", Items: items} }
func nZero(explicit *Node) *Node { return &Node{Kind: "zero", Items: []*Node{explicit}} }
func nInt(i int) *Node           { return nLit(strconv.Itoa(i)) }
func nNull() *Node               { return nLit("~", "null", "") }
func nMap() *Node                { return &Node{Kind: "map"} }
func nStrs(ss []string) *Node {
	l := nList()
	for _, s := range ss {
		l.Items = append(l.Items, nStr(s))
	}
	return l
}

func (n *Node) add(k string, v *Node) *Node {
	n.Keys = append(n.Keys, nStr(k))
	n.Items = append(n.Items, v)
	return n
}

func (n *Node) str(k, v string) *Node {
	if v == "" {
		return n.add(k, nZero(nAlt(nStr(""), nNull())))
	}
	return n.add(k, nStr(v))
}

func (n *Node) strs(k string, v []string) *Node {
	if len(v) == 0 {
		return n.add(k, nZero(nAlt(nList(), nNull())))
	}
	return n.add(k, nStrs(v))
}

func (n *Node) boolean(k string, v bool) *Node {
	if !v {
		return n.add(k, nZero(nLit("false", "no", "off", "False", "FALSE")))
	}
	return n.add(k, nLit("true", "yes", "on", "True", "TRUE", "Yes"))
}

func (n *Node) integer(k string, v int) *Node {
	if v == 0 {
		return n.add(k, nZero(nInt(0)))
	}
	return n.add(k, nInt(v))
}

func (n *Node) kvs(k string, v []KV) *Node {
	if len(v) == 0 {
		return n.add(k, nZero(nAlt(nMap(), nNull())))
	}
	m := nMap()
	for _, kv := range v {
		m.add(kv.K, nStr(kv.V))
	}
	return n.add(k, m)
}

func parseFloat(s string) float64 {
	switch s {
	case ".inf", "+.inf":
		return math.Inf(1)
	case "-.inf":
		return math.Inf(-1)
	case ".nan":
		return math.NaN()
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic("harness: float " + s)
	}
	return f
}

func floatText(f float64) string {
	switch {
	case math.IsInf(f, 1):
		return ".inf"
	case math.IsInf(f, -1):
		return "-.inf"
	case math.IsNaN(f):
		return ".nan"
	}
	s := strconv.FormatFloat(f, 'g', -1, 64)
	if !strings.ContainsAny(s, ".e") {
		s += ".0"
	}
	return s
}

// ---- model to nodes ----

func (v Val) node() *Node {
	switch v.K {
	case "s":
		return nOpq(v.S)
	case "i":
		return nInt(v.I)
	case "u":
		return nLit(strconv.FormatUint(v.U, 10))
	case "f":
		return nLit(v.F)
	case "b":
		if v.B {
			return nLit("true", "yes", "on", "True", "TRUE")
		}
		return nLit("false", "no", "off", "False", "FALSE")
	case "l":
		l := nList()
		for _, x := range v.L {
			l.Items = append(l.Items, x.node())
		}
		return l
	case "m":
		m := nMap()
		for _, kv := range v.M {
			m.Keys = append(m.Keys, kv.K.node())
			m.Items = append(m.Items, kv.V.node())
		}
		return m
	}
	return nNull()
}

func (c Cond) node() *Node {
	long := nMap().strs("include", c.Inc).strs("exclude", c.Exc)
	if len(c.Exc) == 0 && len(c.Inc) == 0 {
		return nZero(nAlt(nList(), nMap()))
	}
	alts := []*Node{}
	if len(c.Exc) == 0 {
		alts = append(alts, nStrs(c.Inc))
		if len(c.Inc) == 1 && noNull(c.Inc[0]) == c.Inc[0] {
			alts = append(alts, nStr(c.Inc[0]))
		}
	}
	alts = append(alts, long)
	if len(c.Inc) == 1 || len(c.Exc) == 1 {
		m := nMap()
		for _, x := range []struct {
			k string
			v []string
		}{{"include", c.Inc}, {"exclude", c.Exc}} {
			switch {
			case len(x.v) == 0:
			case len(x.v) == 1 && noNull(x.v[0]) == x.v[0]:
				m.add(x.k, nStr(x.v[0]))
			default:
				m.strs(x.k, x.v)
			}
		}
		alts = append(alts, m)
	}
	return nAlt(alts...)
}

func (w When) node() *Node {
	m := nMap()
	n := 0
	w.each(func(name string, c *Cond) {
		m.add(name, c.node())
		n += len(c.Inc) + len(c.Exc)
	})
	m.kvs("matrix", w.Matrix)
	if n+len(w.Matrix) == 0 {
		return nZero(m)
	}
	return m
}

func sizeNode(n int64) *Node {
	alts := []*Node{nLit(strconv.FormatInt(n, 10)), nStr(strconv.FormatInt(n, 10))}
	for _, u := range []struct {
		size  int64
		names []string
	}{
		{1 << 10, []string{"k", "K", "kb", "KB", "KiB", "kib", " KiB"}},
		{1 << 20, []string{"m", "M", "MB", "MiB", "mib"}},
		{1 << 30, []string{"g", "GB", "GiB"}},
		{1 << 40, []string{"T", "TiB", "tb"}},
		{1 << 50, []string{"P", "PiB"}},
	} {
		if n > 0 && n%u.size == 0 {
			for _, name := range u.names {
				alts = append(alts, nStr(strconv.FormatInt(n/u.size, 10)+name))
			}
		}
	}
	return nAlt(alts...)
}

func (r *ResObj) node() *Node {
	m := nMap()
	if r.CPU == 0 {
		m.add("cpu", nZero(nInt(0)))
	} else if s := strconv.FormatFloat(r.CPU, 'f', -1, 64); !strings.Contains(s, ".") {
		m.add("cpu", nLit(s, s+".0"))
	} else {
		m.add("cpu", nLit(s))
	}
	if r.Memory == 0 {
		m.add("memory", nZero(nInt(0)))
	} else {
		m.add("memory", sizeNode(r.Memory))
	}
	return m
}

func (s *StepM) node() *Node {
	if s.Null {
		return nNull()
	}
	m := nMap()
	m.str("name", s.Name)
	m.str("image", s.Image)
	if b := s.Build; b != nil {
		long := nMap().kvs("args", b.Args).strs("cache_from", b.CacheFrom).str("context", b.Context).
			str("dockerfile", b.Dockerfile).str("image", b.Image).kvs("labels", b.Labels)
		if len(b.Args) == 0 && len(b.CacheFrom) == 0 && b.Context == "" && b.Dockerfile == "" && len(b.Labels) == 0 && b.Image != "" && noNull(b.Image) == b.Image {
			m.add("build", nAlt(nStr(b.Image), long))
		} else {
			m.add("build", long)
		}
	}
	if s.Push != nil {
		long := nMap().str("image", *s.Push)
		if *s.Push != "" && noNull(*s.Push) == *s.Push {
			long = nAlt(nStr(*s.Push), long)
		}
		m.add("push", long)
	}
	m.strs("command", s.Command)
	m.strs("commands", s.Commands)
	m.strs("entrypoint", s.Entrypoint)
	m.strs("depends_on", s.DependsOn)
	m.strs("dns", s.DNS)
	m.strs("dns_search", s.DNSSearch)
	m.strs("extra_hosts", s.ExtraHosts)
	m.boolean("detach", s.Detach)
	m.boolean("privileged", s.Privileged)
	mounts := func(k string, xs []MountM) {
		if len(xs) == 0 {
			m.add(k, nZero(nList()))
			return
		}
		l := nList()
		for _, x := range xs {
			if x.Null {
				l.Items = append(l.Items, nNull())
			} else {
				l.Items = append(l.Items, nMap().str("name", x.Name).str("path", x.Path))
			}
		}
		m.add(k, l)
	}
	mounts("devices", s.Devices)
	mounts("volumes", s.Volumes)
	if len(s.Env) > 0 {
		e := nMap()
		for _, x := range s.Env {
			switch {
			case x.Null:
				e.add(x.K, nNull())
			case x.Secret != "":
				e.add(x.K, nMap().add("from_secret", nStr(x.Secret)))
			default:
				e.add(x.K, nStr(x.V))
			}
		}
		m.add("environment", e)
	}
	m.str("failure", s.Failure)
	m.str("network_mode", s.Network)
	if len(s.Ports) > 0 {
		l := nList()
		for _, p := range s.Ports {
			if p.Null {
				l.Items = append(l.Items, nNull())
				continue
			}
			long := nMap().integer("port", p.Port).integer("host", p.Host).str("protocol", p.Proto)
			if p.Host == 0 && p.Proto == "" {
				l.Items = append(l.Items, nAlt(nInt(p.Port), long))
			} else {
				l.Items = append(l.Items, long)
			}
		}
		m.add("ports", l)
	}
	m.str("pull", s.Pull)
	if r := s.Resources; r != nil {
		rm := nMap()
		if r.Limits != nil {
			rm.add("limits", r.Limits.node())
		}
		if r.Requests != nil {
			rm.add("requests", r.Requests.node())
		}
		m.add("resources", rm)
	}
	if len(s.Settings) > 0 {
		e := nMap()
		for _, x := range s.Settings {
			switch {
			case x.Null:
				e.add(x.K, nNull())
			case x.Secret != "":
				e.add(x.K, nMap().add("from_secret", nStr(x.Secret)))
			default:
				e.add(x.K, x.V.node())
			}
		}
		m.add("settings", e)
	}
	m.str("shell", s.Shell)
	m.str("user", s.User)
	m.add("when", s.When.node())
	m.str("working_dir", s.WorkingDir)
	return m
}

func (p *PipeM) node() *Node {
	m := nMap().str("version", p.Version).str("kind", p.Kind).str("type", p.Type).str("name", p.Name)
	if p.CloneOff || p.Depth != 0 || p.SkipVerify {
		m.add("clone", nMap().boolean("disable", p.CloneOff).integer("depth", p.Depth).boolean("skip_verify", p.SkipVerify))
	}
	if p.Limit != 0 {
		m.add("concurrency", nMap().integer("limit", p.Limit))
	}
	m.strs("depends_on", p.DependsOn)
	m.kvs("node", p.Node)
	if p.OS != "" || p.Arch != "" || p.Variant != "" || p.OSVersion != "" {
		m.add("platform", nMap().str("os", p.OS).str("arch", p.Arch).str("variant", p.Variant).str("version", p.OSVersion))
	}
	m.strs("image_pull_secrets", p.PullSecrets)
	for _, x := range []struct {
		k string
		v []StepM
	}{{"services", p.Services}, {"steps", p.Steps}} {
		if len(x.v) == 0 {
			m.add(x.k, nZero(nList()))
			continue
		}
		l := nList()
		for i := range x.v {
			l.Items = append(l.Items, x.v[i].node())
		}
		m.add(x.k, l)
	}
	m.add("trigger", p.Trigger.node())
	if len(p.Volumes) > 0 {
		l := nList()
		for _, v := range p.Volumes {
			if v.Null {
				l.Items = append(l.Items, nNull())
				continue
			}
			x := nMap().str("name", v.Name)
			if v.Temp {
				y := nMap().str("medium", v.Medium)
				if v.Size == 0 {
					y.add("size_limit", nZero(nInt(0)))
				} else {
					y.add("size_limit", sizeNode(v.Size))
				}
				x.add("temp", y)
			}
			if v.Host != nil {
				x.add("host", nMap().str("path", *v.Host))
			}
			l.Items = append(l.Items, x)
		}
		m.add("volumes", l)
	}
	if p.Base != "" || p.Path != "" {
		m.add("workspace", nMap().str("base", p.Base).str("path", p.Path))
	}
	return m
}

func (r *ResourceM) node() *Node {
	switch {
	case r.Pipe != nil:
		return r.Pipe.node()
	case r.Cron != nil:
		c := r.Cron
		m := nMap().str("version", c.Version).str("kind", c.Kind).str("type", c.Type).str("name", c.Name)
		s := nMap().str("schedule", c.Schedule).str("branch", c.Branch)
		if c.Target != "" {
			s.add("deployment", nMap().str("target", c.Target))
		}
		return m.add("spec", s)
	case r.Sec != nil:
		c := r.Sec
		m := nMap().str("version", c.Version).str("kind", c.Kind).str("type", c.Type).str("name", c.Name).str("data", c.Data)
		if c.GetPath != "" || c.GetName != "" || c.GetKey != "" {
			m.add("get", nMap().str("path", c.GetPath).str("name", c.GetName).str("key", c.GetKey))
		}
		return m
	case r.Reg != nil:
		return nMap().str("version", r.Reg.Version).str("kind", r.Reg.Kind).str("type", r.Reg.Type).kvs("data", r.Reg.Data)
	case r.Sig != nil:
		return nMap().str("version", r.Sig.Version).str("kind", r.Sig.Kind).str("hmac", r.Sig.Hmac)
	}
	panic("harness: empty resource")
}

func (m *ManifestM) nodes() []*Node {
	var out []*Node
	for i := range m.R {
		out = append(out, m.R[i].node())
	}
	return out
}

// ---- the emitter ----

// emitter writes nodes; every choice is taken from style, and
// the plainest choice is made once the style is used up.
type emitter struct {
	style   []int
	pos     int
	buf     bytes.Buffer
	anchors map[string]string // representation -> anchor
	// noAlias disables anchors, aliases and merge keys.
	noAlias  bool
	anchored map[string]*Node
	keep     bool // a block that keeps trailing blank lines was written
	features map[string]int
}

func (e *emitter) choose(n int) int {
	if e.pos >= len(e.style) || n <= 1 {
		return 0
	}
	v := e.style[e.pos]
	e.pos++
	if v < 0 {
		v = -v
	}
	return v % n
}

// rare is true in one of n choices.
func (e *emitter) rare(n int) bool { return e.choose(n) == n-1 }

func (e *emitter) feature(s string) {
	if e.features != nil {
		e.features[s]++
	}
}

// resolve picks the representation of alternatives and drops
// zero values.
func (e *emitter) resolve(n *Node) *Node {
	switch n.Kind {
	case "alt":
		k := e.choose(len(n.Items))
		if k > 0 {
			e.feature("alternative form")
		}
		return e.resolve(n.Items[k])
	case "zero":
		if e.rare(24) {
			e.feature("explicit zero")
			return e.resolve(n.Items[0])
		}
		return nil
	case "list":
		out := &Node{Kind: "list"}
		for _, x := range n.Items {
			y := e.resolve(x)
			if y == nil {
				y = nNull()
			}
			out.Items = append(out.Items, y)
		}
		return out
	case "alias":
		return &Node{Kind: "alias", Text: n.Text, Items: []*Node{e.resolve(n.Items[0])}}
	case "map":
		if n.Anchor != "" {
			if out, ok := e.anchored[n.Anchor]; ok {
				return out
			}
		}
		out := &Node{Kind: "map", Ordered: n.Ordered, NoMerge: n.NoMerge, Anchor: n.Anchor}
		if n.Anchor != "" {
			e.anchored[n.Anchor] = out
		}
		for i, x := range n.Items {
			if y := e.resolve(x); y != nil {
				out.Keys = append(out.Keys, n.Keys[i])
				out.Items = append(out.Items, y)
			}
		}
		// any order of the keys.
		if len(out.Keys) > 1 && !n.Ordered && e.rare(3) {
			e.feature("shuffled keys")
			for i := range out.Keys {
				j := i + e.choose(len(out.Keys)-i)
				out.Keys[i], out.Keys[j] = out.Keys[j], out.Keys[i]
				out.Items[i], out.Items[j] = out.Items[j], out.Items[i]
			}
		}
		return out
	}
	return n
}

// repr identifies a node, for the aliases.
func (n *Node) repr() string {
	switch n.Kind {
	case "alias":
		return "*" + n.Text
	case "list", "map":
		var b strings.Builder
		b.WriteString(n.Kind + "(")
		for i, x := range n.Items {
			if n.Kind == "map" {
				b.WriteString(n.Keys[i].repr() + ":")
			}
			b.WriteString(x.repr() + ",")
		}
		return b.String() + ")"
	}
	return n.Kind + strconv.Quote(n.Text)
}

const wordChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"

// safePlain says that s may be written plain in a position
// that is read as a string. It is conservative.
func safePlain(s string, flow, opaque, key bool) bool {
	if s == "" || s == "null" || s == "Null" || s == "NULL" || len(s) > 200 {
		return false
	}
	if !strings.ContainsRune(wordChars+"/", rune(s[0])) {
		return false
	}
	if strings.HasSuffix(s, " ") || strings.Contains(s, " #") || strings.Contains(s, ": ") || strings.HasSuffix(s, ":") {
		return false
	}
	ok := wordChars + "/.-+=@$%"
	if !key {
		ok += " "
	}
	if !flow && !key {
		ok += ":'\"&*!#,[]{}\\"
	}
	for _, r := range s {
		if !strings.ContainsRune(ok, r) {
			return false
		}
	}
	if opaque || key {
		switch strings.ToLower(s) {
		case "y", "n", "yes", "no", "on", "off", "true", "false", "null":
			return false
		}
		if s[0] >= '0' && s[0] <= '9' {
			return false
		}
	}
	return true
}

func printableLine(s string) bool {
	for _, r := range s {
		if r < ' ' || r == 0x7f || r >= 0x80 && r < 0xa0 || r == 0x2028 || r == 0x2029 || r == 0xfeff || r == 0xfffd || r > 0xffff {
			return false
		}
	}
	return true
}

func doubleQuoted(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"':
			b.WriteString(`\"`)
		case r == '\\':
			b.WriteString(`\\`)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r == '\r':
			b.WriteString(`\r`)
		case r < ' ' || r == 0x7f:
			fmt.Fprintf(&b, `\x%02x`, r)
		case r >= 0x80 && !printableLine(string(r)):
			if r > 0xffff {
				fmt.Fprintf(&b, `\U%08x`, r)
			} else {
				fmt.Fprintf(&b, `\u%04x`, r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// literalOK says that s may be written as a literal block.
func literalOK(s string) bool {
	if s == "" || strings.HasPrefix(s, " ") || strings.HasPrefix(s, "\n") || strings.Contains(s, "\t") {
		return false
	}
	t := strings.TrimRight(s, "\n")
	if t == "" {
		return false
	}
	for _, l := range strings.Split(t, "\n") {
		if !printableLine(l) || strings.TrimSpace(l) == "" && l != "" {
			return false
		}
	}
	return true
}

// scalar returns the inline form of a scalar, or the header and
// lines of a block.
func (e *emitter) scalar(n *Node, flow, key bool) (inline string, block []string) {
	if n.Kind == "lit" {
		s := n.Alts[e.choose(len(n.Alts))]
		if s == "" && (flow || key) {
			s = "~"
		}
		return s, nil
	}
	s := n.Text
	type opt func() (string, []string)
	var opts []opt
	if safePlain(s, flow, n.Kind == "opq", key) {
		opts = append(opts, func() (string, []string) { return s, nil })
	}
	opts = append(opts, func() (string, []string) { return doubleQuoted(s), nil })
	if printableLine(s) {
		opts = append(opts, func() (string, []string) { return "'" + strings.Replace(s, "'", "''", -1) + "'", nil })
	}
	if !flow && !key && literalOK(s) {
		t := strings.TrimRight(s, "\n")
		chomp := "-"
		switch len(s) - len(t) {
		case 0:
		case 1:
			chomp = ""
		default:
			chomp = "+"
		}
		lines := strings.Split(t, "\n")
		for i := 0; i < len(s)-len(t)-1; i++ {
			lines = append(lines, "")
		}
		opts = append(opts, func() (string, []string) {
			e.feature("literal block")
			return "|" + chomp, lines
		})
		if len(lines) == 1 && chomp != "+" {
			opts = append(opts, func() (string, []string) {
				e.feature("folded block")
				return ">" + chomp, lines
			})
		}
	}
	if !key && !flow && n.Kind == "opq" && safePlain(s, flow, false, true) {
		opts = append(opts, func() (string, []string) {
			e.feature("explicit tag")
			return "!!str " + s, nil
		})
	}
	return opts[e.choose(len(opts))]()
}

func (e *emitter) comment() string {
	if e.rare(12) {
		e.feature("comment")
		return []string{" # comment", "  # - key: value", " # \"quote", " # ---"}[e.choose(4)]
	}
	return ""
}

func (e *emitter) commentLine(indent string) {
	keep := e.keep
	e.keep = false
	if e.rare(14) {
		e.feature("comment")
		if keep {
			e.buf.WriteString(indent + "# comment\n")
			return
		}
		e.buf.WriteString([]string{indent + "# comment: x", "", indent + "# ---", "  ", "# at the margin"}[e.choose(5)] + "\n")
	}
}

// anchor returns an anchor to write in front of the node, or
// an alias to write in its place.
func (e *emitter) anchor(n *Node) (prefix string, alias bool) {
	if n.Kind == "alias" {
		return "*" + n.Text, true
	}
	if n.Anchor != "" {
		return "&" + n.Anchor, false
	}
	if e.noAlias || n.Kind == "lit" {
		return "", false
	}
	r := n.repr()
	if a, ok := e.anchors[r]; ok {
		if e.rare(2) {
			e.feature("alias")
			return "*" + a, true
		}
		return "", false
	}
	if e.rare(16) {
		a := fmt.Sprintf("a%d", len(e.anchors))
		// registered by the caller once the node is written:
		// a node must not refer to itself.
		return "&" + a, false
	}
	return "", false
}

func (e *emitter) flow(n *Node) string {
	pre, alias := e.anchor(n)
	if alias {
		return pre
	}
	if pre != "" {
		defer func() { e.anchors[n.repr()] = pre[1:] }()
		// reserve the name.
		e.anchors["\x00"+pre] = pre[1:]
		pre += " "
	}
	switch n.Kind {
	case "list":
		var items []string
		for _, x := range n.Items {
			items = append(items, e.flow(x))
		}
		return pre + "[" + strings.Join(items, ", ") + "]"
	case "map":
		var items []string
		for i, x := range n.Items {
			k, _ := e.scalar(n.Keys[i], true, true)
			items = append(items, k+": "+e.flow(x))
		}
		return pre + "{" + strings.Join(items, ", ") + "}"
	}
	s, _ := e.scalar(n, true, false)
	return pre + s
}

// value writes a node after "key:" or "-"; the line is open.
func (e *emitter) value(n *Node, indent int, afterDash bool) {
	pre, alias := e.anchor(n)
	if alias {
		e.buf.WriteString(" " + pre + e.comment() + "\n")
		return
	}
	if pre != "" {
		e.feature("anchor")
		e.anchors["\x00"+pre] = pre[1:]
		defer func() { e.anchors[n.repr()] = pre[1:] }()
		e.buf.WriteString(" " + pre)
	}
	pad := strings.Repeat(" ", indent)
	switch n.Kind {
	case "list":
		if len(n.Items) == 0 || e.rare(3) {
			e.feature("flow")
			e.buf.WriteString(" " + e.flowBody(n) + e.comment() + "\n")
			return
		}
		in := indent + 2
		if !afterDash && e.rare(2) {
			in = indent
		}
		e.buf.WriteString(e.comment() + "\n")
		e.list(n, in)
	case "map":
		if len(n.Items) == 0 || e.rare(4) {
			e.feature("flow")
			e.buf.WriteString(" " + e.flowBody(n) + e.comment() + "\n")
			return
		}
		if afterDash && pre == "" {
			e.buf.WriteString(" ")
			e.mapping(n, indent+2, true)
			return
		}
		e.buf.WriteString(e.comment() + "\n")
		e.mapping(n, indent+2+e.choose(2), false)
	default:
		s, block := e.scalar(n, false, false)
		if block != nil {
			e.buf.WriteString(" " + s + "\n")
			e.keep = strings.HasSuffix(s, "+")
			for _, l := range block {
				if l == "" {
					e.buf.WriteString("\n")
				} else {
					e.buf.WriteString(pad + "    " + l + "\n")
				}
			}
			return
		}
		if s != "" {
			s = " " + s
		}
		e.buf.WriteString(s + e.comment() + "\n")
	}
}

func (e *emitter) flowBody(n *Node) string {
	switch n.Kind {
	case "list":
		var items []string
		for _, x := range n.Items {
			items = append(items, e.flow(x))
		}
		return "[" + strings.Join(items, ", ") + "]"
	default:
		var items []string
		for i, x := range n.Items {
			k, _ := e.scalar(n.Keys[i], true, true)
			items = append(items, k+": "+e.flow(x))
		}
		return "{" + strings.Join(items, ", ") + "}"
	}
}

func (e *emitter) list(n *Node, indent int) {
	pad := strings.Repeat(" ", indent)
	for _, x := range n.Items {
		e.commentLine(pad)
		e.buf.WriteString(pad + "-")
		e.value(x, indent, true)
	}
}

func (e *emitter) mapping(n *Node, indent int, open bool) {
	pad := strings.Repeat(" ", indent)
	keys, items := n.Keys, n.Items
	merge, end := -1, len(keys)
	if !e.noAlias && !n.NoMerge && len(keys) > 1 && e.rare(16) {
		// some of the keys come from a merge.
		merge = 1 + e.choose(len(keys)-1)
		if e.choose(3) == 2 {
			merge--
		}
		if e.choose(3) == 2 {
			end = merge + 1 + e.choose(len(keys)-merge)
		}
		if merge == 0 && end == len(keys) {
			merge = 1
		}
	}
	line := func() {
		if open {
			open = false
			return
		}
		e.commentLine(pad)
		e.buf.WriteString(pad)
	}
	for i := range keys {
		if i == merge {
			e.feature("merge key")
			sub := &Node{Kind: "map", Keys: keys[i:end], Items: items[i:end]}
			line()
			e.buf.WriteString("<<: " + e.flowBody(sub) + "\n")
		}
		if merge >= 0 && i >= merge && i < end {
			continue
		}
		line()
		k, _ := e.scalar(keys[i], false, true)
		e.buf.WriteString(k + ":")
		e.value(items[i], indent, false)
	}
}

// document writes one document, without separator.
func (e *emitter) document(n *Node) *Node {
	e.anchored = map[string]*Node{}
	r := e.resolve(n)
	e.anchors = map[string]string{}
	if len(r.Items) == 0 {
		e.buf.WriteString("{}\n")
		return r
	}
	e.mapping(r, 0, false)
	return r
}

// emitDocs writes a multi-document file.
func emitDocs(nodes []*Node, style []int, features map[string]int) (string, []*Node) {
	e := &emitter{style: style, features: features}
	var resolved []*Node
	for i, n := range nodes {
		if i > 0 || !e.rare(3) {
			e.buf.WriteString([]string{"---", "---", "---", "--- # comment", "---  "}[e.choose(5)] + "\n")
		}
		resolved = append(resolved, e.document(n))
	}
	if e.rare(4) {
		e.buf.WriteString("...\n")
	}
	return e.buf.String(), resolved
}

func (m *ManifestM) emit(style []int, features map[string]int) (string, []*Node) {
	return emitDocs(m.nodes(), style, features)
}

// ---- second opinion on the emitter ----

// agrees parses the text with an independent yaml parser and
// says if it reads the nodes that were written.
func agrees(text string, nodes []*Node) (ok bool) {
	dec := yamlv3.NewDecoder(strings.NewReader(text))
	for _, n := range nodes {
		var doc yamlv3.Node
		if err := dec.Decode(&doc); err != nil {
			return false
		}
		if doc.Kind != yamlv3.DocumentNode || len(doc.Content) != 1 || !agreeNode(doc.Content[0], n) {
			return false
		}
	}
	return true
}

func agreeNode(y *yamlv3.Node, n *Node) bool {
	for y.Kind == yamlv3.AliasNode {
		y = y.Alias
	}
	switch n.Kind {
	case "list":
		if y.Kind != yamlv3.SequenceNode || len(y.Content) != len(n.Items) {
			return false
		}
		for i := range n.Items {
			if !agreeNode(y.Content[i], n.Items[i]) {
				return false
			}
		}
		return true
	case "alias":
		return agreeNode(y, n.Items[0])
	case "map":
		if y.Kind != yamlv3.MappingNode {
			return false
		}
		n = n.flatten()
		ks, vs := flatten(y)
		if len(ks) != len(n.Keys) {
			return false
		}
		for i, k := range n.Keys {
			found := false
			for j := range ks {
				// a key that is used twice.
				j = (i + j) % len(ks)
				if ks[j].Value == k.Text || k.Kind == "lit" && inList(ks[j].Value, k.Alts) {
					found = agreeNode(vs[j], n.Items[i])
					break
				}
			}
			if !found {
				return false
			}
		}
		return true
	case "lit":
		return y.Kind == yamlv3.ScalarNode && (inList(y.Value, n.Alts) || n.Text == "~" && y.Tag == "!!null")
	}
	return y.Kind == yamlv3.ScalarNode && y.Value == n.Text
}

func flatten(y *yamlv3.Node) (ks, vs []*yamlv3.Node) {
	for i := 0; i+1 < len(y.Content); i += 2 {
		k, v := y.Content[i], y.Content[i+1]
		if k.Tag == "!!merge" && k.Value == "<<" {
			for v.Kind == yamlv3.AliasNode {
				v = v.Alias
			}
			k2, v2 := flatten(v)
			for j := range k2 {
				own := false
				for l := 0; l+1 < len(y.Content); l += 2 {
					own = own || y.Content[l].Value == k2[j].Value && y.Content[l].Tag != "!!merge"
				}
				if !own {
					ks, vs = append(ks, k2[j]), append(vs, v2[j])
				}
			}
			continue
		}
		ks, vs = append(ks, k), append(vs, v)
	}
	return
}

// flatten replaces the merge keys of a map.
func (n *Node) flatten() *Node {
	out := &Node{Kind: n.Kind}
	for i, k := range n.Keys {
		if n.Items[i].Kind != "alias" || k.Kind != "lit" {
			out.Keys, out.Items = append(out.Keys, k), append(out.Items, n.Items[i])
		}
	}
	own := out.Keys
	for i, k := range n.Keys {
		if n.Items[i].Kind != "alias" || k.Kind != "lit" {
			continue
		}
		m := n.Items[i].Items[0].flatten()
	next:
		for j, mk := range m.Keys {
			for _, o := range own {
				if o.Text == mk.Text {
					continue next
				}
			}
			out.Keys, out.Items = append(out.Keys, mk), append(out.Items, m.Items[j])
		}
	}
	return out
}

func inList(s string, xs []string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}
