package main

import (
	"github.com/drone/drone-yaml/yaml/converter/bitbucket"
	"github.com/drone/drone-yaml/yaml/converter/gitlab"
	legacy "github.com/drone/drone-yaml/yaml/converter/legacy"
	"pgregory.net/rapid"
)

// ---- C26, C28, C29: values of the wrong type ----

// ExtMisuse is a configuration of another format in which one
// value has a type that its attribute does not have.
type ExtMisuse struct {
	Legacy    *LegacyM    `json:"legacy,omitempty"`
	Gitlab    *GitlabM    `json:"gitlab,omitempty"`
	Bitbucket *BitbucketM `json:"bitbucket,omitempty"`
	Ref       string      `json:"ref,omitempty"`
	Style     []int       `json:"style,omitempty"`
	Site      int         `json:"site"`
	Wrong     int         `json:"wrong"`
}

func genExtMisuse(format string) func(*rapid.T) ExtMisuse {
	return func(t *rapid.T) ExtMisuse {
		in := ExtMisuse{Style: genStyle(t), Site: num(t, 0, 99999), Wrong: num(t, 0, 59)}
		switch format {
		case "legacy":
			m := genLegacyWith(t, optText())
			if chance(t, 4) {
				m.Matrix = genMatrix(t, 3)
				if len(m.Matrix.Include) > 0 {
					m.Matrix.Axes = nil // they are not used
				}
			}
			in.Legacy = &m
		case "gitlab":
			m := genGitlab(t)
			in.Gitlab = &m
		default:
			m := genBitbucket(t)
			in.Bitbucket, in.Ref = &m, genRef(t)
		}
		return in
	}
}

// typeTree says which types the attributes of a format have. The
// key * stands for any name, and [] for the elements of a list.
type typeTree struct {
	class string
	keys  map[string]*typeTree
	alts  map[string]*typeTree // of a value with a long form
}

func tt(class string) *typeTree { return &typeTree{class: class} }

func tmap(class string, kv ...interface{}) *typeTree {
	t := &typeTree{class: class, keys: map[string]*typeTree{}}
	for i := 0; i < len(kv); i += 2 {
		t.keys[kv[i].(string)] = kv[i+1].(*typeTree)
	}
	return t
}

var legacyTypes = func() *typeTree {
	when := tmap("struct", "branch", tt("condition"), "environment", tt("condition"), "event", tt("condition"), "instance", tt("condition"), "ref", tt("condition"), "repo", tt("condition"), "status", tt("condition"), "matrix", tt("texts"))
	container := tmap("struct",
		"image", tt("string"), "command", tt("strings"), "commands", tt("strings"), "entrypoint", tt("strings"),
		"dns", tt("strings"), "dns_search", tt("strings"), "extra_hosts", tt("list"),
		"detach", tt("bool"), "privileged", tt("bool"), "pull", tt("bool"),
		"environment", tt("environment"), "volumes", tt("list"), "secrets", tt("secrets"), "when", when)
	section := tmap("struct", "*", container)
	return tmap("",
		"workspace", tmap("struct", "base", tt("string"), "path", tt("string")),
		"branches", tt("condition"), "clone", section, "pipeline", section, "services", section,
		"secrets", tmap("struct", "*", tmap("struct", "driver", tt("string"), "path", tt("string"), "vault", tt("string"), "driver_opts", tt("texts"))),
		"matrix", tmap("struct", "*", tt("list"), "include", tt("maps")))
}()

var gitlabTypes = func() *typeTree {
	img := tmap("image", "name", tt("string"), "entrypoint", tt("strings"), "command", tt("strings"), "alias", tt("string"))
	job := tmap("struct", "stage", tt("string"), "image", img, "script", tt("strings"), "before_script", tt("strings"), "after_script", tt("strings"), "allow_failure", tt("bool"), "variables", tt("texts"))
	return tmap("",
		"image", img, "stages", tt("list"), "services", tmap("images", "[]", img), "variables", tt("texts"),
		"before_script", tt("strings"), "after_script", tt("strings"), "*", job)
}()

var bitbucketTypes = func() *typeTree {
	step := tmap("struct", "name", tt("string"), "image", tt("string"), "script", tt("list"), "variables", tt("texts"))
	stage := tmap("structs", "[]", tmap("", "step", step))
	return tmap("",
		"image", tt("string"), "clone", tmap("struct", "depth", tt("int")),
		"pipelines", tmap("struct", "default", stage, "tags", tmap("struct", "*", stage), "branches", tmap("struct", "*", stage)),
		"definitions", tmap("struct", "services", tmap("struct", "*", step)))
}()

// typedSites lists the values of the mapping that have a type.
func typedSites(n *Node, t *typeTree, path string, out []extSite) []extSite {
	for i := range n.Items {
		var sub *typeTree
		key := "[]"
		if n.Kind == "map" {
			if key = n.Keys[i].Text; n.Keys[i].Kind != "str" {
				continue
			}
			if sub = t.keys[key]; sub == nil {
				sub = t.keys["*"]
			}
			if sub != nil && t.keys[key] == nil {
				key = "*"
			}
		} else {
			sub = t.keys["[]"]
		}
		if sub == nil {
			continue
		}
		v := n.Items[i]
		if len(sub.keys) > 0 {
			// an alternative is replaced by the one that is descended.
			for (v.Kind == "alt" || v.Kind == "zero") && len(v.Items) > 0 {
				v = v.Items[len(v.Items)-1]
			}
			n.Items[i] = v
		}
		p := path + "." + key
		if sub.class != "" {
			out = append(out, extSite{n, i, sub.class, p})
		}
		if v.Kind == "map" && v.Anchor == "" && len(sub.keys) > 0 || v.Kind == "list" && sub.keys["[]"] != nil {
			out = typedSites(v, sub, p, out)
		}
	}
	return out
}

type extSite struct {
	n     *Node
	i     int
	class string
	path  string
}

func wrongExt(class string, k int) *Node {
	m := func() *Node { return nMap().add("zz", nOpq("a")) }
	l := func() *Node { return nList(nOpq("zz")) }
	w := func() *Node { return nOpq("zz") }
	var alts []*Node
	switch class {
	case "list":
		alts = []*Node{m(), w(), nList(m()), nList(nOpq("a"), l())}
	case "environment":
		alts = []*Node{w(), nList(m()), nMap().add("A", l()), nMap().add("A", m())}
	case "maps":
		// a list of texts is an axis with the name include.
		alts = []*Node{w(), m(), nList(l()), nList(nMap().add("A", l()))}
	case "secrets":
		alts = []*Node{m(), w(), nList(l()), nList(nMap().add("source", l())), nList(nMap().add("target", m()))}
	case "image":
		alts = []*Node{l(), nMap().add("name", l()), nMap().add("name", m())}
	case "images":
		alts = []*Node{m(), w(), nList(l())}
	default:
		return wrongValue(class, k)
	}
	return alts[k%len(alts)]
}

func checkExtMisuse(c *C, in ExtMisuse) *V {
	var n *Node
	var types *typeTree
	switch {
	case in.Legacy != nil:
		n, types = in.Legacy.node(), legacyTypes
	case in.Gitlab != nil:
		n, types = in.Gitlab.node(), gitlabTypes
	default:
		n, types = in.Bitbucket.node(), bitbucketTypes
	}
	all := typedSites(n, types, "", nil)
	if len(all) == 0 {
		return c.Discard("no values")
	}
	// all paths are equally likely, not all values.
	var paths []string
	byPath := map[string][]extSite{}
	for _, s := range all {
		if byPath[s.path] == nil {
			paths = append(paths, s.path)
		}
		byPath[s.path] = append(byPath[s.path], s)
	}
	group := byPath[paths[in.Site%len(paths)]]
	s := group[in.Site/len(paths)%len(group)]
	s.n.Items[s.i] = wrongExt(s.class, in.Wrong)
	text, nodes := emitDocs([]*Node{n}, in.Style, nil)
	c.NonTrivial()
	c.Class(s.class)
	var out []byte
	var err error
	switch {
	case in.Legacy != nil:
		out, err = legacy.Convert([]byte(text), "https://github.com/octocat/hello-world.git")
	case in.Gitlab != nil:
		out, err = gitlab.Convert([]byte(text))
	default:
		out, err = bitbucket.Convert([]byte(text), in.Ref)
	}
	if err == nil {
		if !agrees(text, nodes) {
			return c.Discard("the emitter is not certain")
		}
		return fail("%s has a value of a wrong type, which is ignored\n%s\nbecomes\n%s", s.path, text, out)
	}
	return nil
}
