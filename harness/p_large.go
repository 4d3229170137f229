package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"pgregory.net/rapid"
)

// ---- C01: large files ----
//
// Files that are regular and large: whatever takes more than
// polynomial time does not end.

// LargeCase is a file of one kind and size.
type LargeCase struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	URL  string `json:"url,omitempty"`
}

// largeKinds are the kinds and the size that is still quick.
var largeKinds = []struct {
	kind string
	max  int
}{
	{"nested lists", 800}, {"nested maps", 400}, {"dense steps", 120}, {"dense services", 120}, {"dense pipelines", 100}, {"ladder", 400},
	{"steps", 600}, {"builds", 120}, {"settings", 2000}, {"environment", 2000}, {"commands", 1500}, {"volumes", 300}, {"secrets", 300}, {"crons", 300},
	{"long text", 300000}, {"quotes", 100000}, {"long image", 20000}, {"long pattern", 20000}, {"patterns", 1000}, {"documents", 1500}, {"comments", 3000},
	{"aliases", 300}, {"alias chain", 100}, {"merge chain", 100}, {"merge keys", 100},
	{"legacy steps", 400}, {"legacy same names", 60}, {"legacy axes", 40}, {"legacy values", 300}, {"legacy secrets", 400}, {"legacy variables", 200},
	{"gitlab jobs", 200}, {"gitlab stages", 150}, {"gitlab scripts", 2000}, {"gitlab services", 100},
	{"bitbucket steps", 400}, {"bitbucket patterns", 300}, {"bitbucket services", 300},
	{"stars", 5}, {"alias bomb", 3},
}

func genLarge(t *rapid.T) LargeCase {
	// evenly: draws prefer what is small.
	h := hash64(rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(t, "h"))
	k := largeKinds[h%uint64(len(largeKinds))]
	c := LargeCase{Kind: k.kind, N: k.max/2 + int(h>>32)%(k.max-k.max/2+1)}
	if chance(t, 3) {
		c.N = num(t, 0, c.N)
	}
	if k.kind == "stars" || k.kind == "alias bomb" {
		// these are known not to end.
		if chance(t, 6) {
			c.N = pick(t, []int{14, 20, 40})
		}
	}
	if chance(t, 2) {
		c.URL = "https://github.com/octocat/hello-world"
	}
	return c
}

func each(n int, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(f(i))
	}
	return b.String()
}

func joined(n int, f func(i int) string) string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, f(i))
	}
	return strings.Join(l, ", ")
}

func (in LargeCase) text() string {
	n := in.N
	rep := func(s string) string { return strings.Repeat(s, n) }
	s := fmt.Sprintf
	head := "kind: pipeline\nname: a\nsteps:\n"
	step := head + "- name: a\n  image: b\n"
	dense := func(i int) string {
		return s("- name: s%d\n  image: b\n  depends_on: [ %s ]\n", i, joined(i, func(k int) string { return s("s%d", k) }))
	}
	switch in.Kind {
	case "nested lists":
		return step + "  settings:\n    x: " + rep("[") + rep("]") + "\n"
	case "nested maps":
		return step + "  settings:\n    x: " + rep("{a: ") + rep("}") + "\n"
	case "dense steps":
		return head + each(n, dense)
	case "dense services":
		return step + "services:\n" + each(n, dense)
	case "dense pipelines":
		return each(n, func(i int) string {
			return s("---\nkind: pipeline\nname: s%d\nsteps:\n- name: a\n  image: b\ndepends_on: [ %s ]\n", i, joined(i, func(k int) string { return s("s%d", k) }))
		})
	case "ladder":
		return head + each(n, func(i int) string {
			if i < 2 {
				return s("- name: s%d\n  image: b\n", i)
			}
			return s("- name: s%d\n  image: b\n  depends_on: [ s%d, s%d ]\n", i, i-i%2-1, i-i%2-2)
		})
	case "steps":
		return head + each(n, func(i int) string { return s("- name: s%d\n  image: b\n  commands: [ go test ]\n", i) })
	case "builds":
		return head + each(n, func(i int) string {
			return s("- name: b%d\n  build: b%d\n- name: s%d\n  image: b%d\n", i, i, i, i)
		})
	case "settings":
		return step + "  settings:\n" + each(n, func(i int) string { return s("    k%d: [ %d, a ]\n", i, i) })
	case "environment":
		return step + "  environment:\n" + each(n, func(i int) string { return s("    k%d: { from_secret: s%d }\n", i, i) })
	case "commands":
		return step + "  commands:\n" + each(n, func(i int) string { return s("  - echo $%d \"`a`\"\n", i) })
	case "volumes":
		return step + "  volumes:\n" + each(n, func(i int) string { return s("  - name: v%d\n    path: /v%d\n", i, i) }) + "volumes:\n" + each(n, func(i int) string { return s("- name: v%d\n  temp: {}\n", i) })
	case "secrets":
		return each(n, func(i int) string { return s("---\nkind: secret\nname: s%d\ndata: %s\n", i, strings.Repeat("x", i)) })
	case "crons":
		return each(n, func(i int) string {
			return s("---\nkind: cron\nname: s%d\nspec:\n  schedule: '@hourly'\n  branch: b%d\n", i, i)
		})
	case "long text":
		return step + "  commands:\n  - " + rep("x") + "\n"
	case "quotes":
		return step + "  commands:\n  - " + rep("\"'\\ $") + "\n"
	case "long image":
		return head + "- name: a\n  image: " + rep("a/") + "b:c\n"
	case "long pattern":
		return step + "  when:\n    branch: [ " + rep("[a-z]") + ", '" + rep("{a,b}") + "' ]\n"
	case "patterns":
		return step + "  when:\n    branch:\n      include: [ " + joined(n, func(i int) string { return s("b%d/*", i) }) + " ]\n      exclude: [ " + joined(n, func(i int) string { return s("c%d/*", i) }) + " ]\n"
	case "documents":
		return rep("---\nkind: pipeline\n")
	case "comments":
		return "kind: pipeline\n" + rep("# comment\n\n") + "steps:\n" + rep("# comment\n") + "- name: a\n  image: b\n" + rep("  # comment\n")
	case "aliases":
		return "x: &a\n  name: a\n  image: b\n  commands: [ go test ]\n" + head + rep("- *a\n")
	case "alias chain":
		return "x0: &a0 [ a ]\n" + each(n, func(i int) string { return s("x%d: &a%d [ *a%d ]\n", i+1, i+1, i) }) + step + s("  settings:\n    x: *a%d\n", n)
	case "merge chain":
		return "x0: &a0 { image: b }\n" + each(n, func(i int) string { return s("x%d: &a%d { <<: *a%d, k%d: v }\n", i+1, i+1, i, i) }) + step + s("- <<: *a%d\n  name: b\n", n)
	case "merge keys":
		return "x: &a { image: b, pull: always }\n" + head + each(n, func(i int) string { return s("- { <<: *a, name: s%d }\n", i) })
	case "legacy steps":
		return "pipeline:\n" + each(n, func(i int) string {
			return s("  s%d:\n    image: b\n    commands: [ go test ]\n    volumes: [ '/a%d:/b' ]\n", i, i)
		})
	case "legacy same names":
		return "clone:\n" + each(n, func(i int) string { return s("  s%d: { image: b }\n  s%d_%d: { image: b }\n", i, i, 2*n+2*i) }) + "pipeline:\n" + each(n, func(i int) string { return s("  s%d: { image: b }\n  s%d_%d: { image: b }\n", i, i, i) })
	case "legacy axes":
		return "pipeline:\n  a:\n    image: b:${A1}\nmatrix:\n" + each(n, func(i int) string { return s("  A%d: [ a, b, c ]\n", i) })
	case "legacy values":
		return "pipeline:\n  a:\n    image: b:${A}\nmatrix:\n  A: [ " + joined(n, strconv.Itoa) + " ]\n  B: [ " + joined(n, strconv.Itoa) + " ]\n"
	case "legacy secrets":
		return "pipeline:\n  a:\n    image: b\n    secrets: [ " + joined(n, func(i int) string { return s("s%d", i) }) + " ]\nsecrets:\n" + each(n, func(i int) string { return s("  s%d: { vault: a/b%d }\n", i, i) })
	case "legacy variables":
		return "pipeline:\n  a:\n    image: b\n    commands: [ '" + rep("${A}${B}") + "' ]\nmatrix:\n  A: [ 'x${A}', 'x${B}' ]\n  B: [ 'y${A}', 'y${B}' ]\n"
	case "gitlab jobs":
		return each(n, func(i int) string { return s("j%d:\n  image: b\n  script: [ a, b ]\n", i) })
	case "gitlab stages":
		return "stages: [ " + joined(n, func(i int) string { return s("s%d", i) }) + " ]\n" + each(n, func(i int) string { return s("j%d:\n  stage: s%d\n  script: a\n", i, i) })
	case "gitlab scripts":
		return "before_script: [ " + joined(n, strconv.Itoa) + " ]\nj:\n  script: [ " + joined(n, strconv.Itoa) + " ]\n"
	case "gitlab services":
		return "services: [ " + joined(n, func(i int) string { return s("'a/b%d:c'", i) }) + " ]\n" + each(10, func(i int) string { return s("j%d:\n  script: a\n", i) })
	case "bitbucket steps":
		return "pipelines:\n  default:\n" + each(n, func(i int) string { return s("  - step:\n      name: s%d\n      script: [ a, b ]\n", i) })
	case "bitbucket patterns":
		return "pipelines:\n  branches:\n" + each(n, func(i int) string { return s("    'b%d/*':\n    - step:\n        script: [ a ]\n", i) })
	case "bitbucket services":
		return "pipelines:\n  default:\n  - step:\n      script: [ a ]\ndefinitions:\n  services:\n" + each(n, func(i int) string { return s("    s%d:\n      image: b\n", i) })
	case "stars":
		return step + "  when:\n    branch: '" + rep("*a") + "b'\n"
	case "alias bomb":
		return "x0: &a0 [ a, a, a, a, a, a, a, a, a ]\n" + each(n, func(i int) string {
			return s("x%d: &a%d [ %s ]\n", i+1, i+1, strings.TrimSuffix(strings.Repeat(s("*a%d, ", i), 9), ", "))
		}) + step + s("  settings:\n    x: *a%d\n", n)
	}
	return ""
}

func checkLarge(c *C, in LargeCase) *V {
	c.NonTrivialIf(in.N > 0)
	c.Class(in.Kind)
	text := in.text()
	if in.Kind != "stars" && in.Kind != "alias bomb" {
		return everything(c, BytesCase{Data: []byte(text), Ref: "refs/heads/b1/x", URL: in.URL})
	}
	// in a process of its own, which can be ended.
	limit := 60 * time.Second
	if in.N >= 12 {
		limit = 3 * time.Second
	}
	self, err := os.Executable()
	if err != nil {
		return fail("no executable: %v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, "sh", "-c", `ulimit -v 4000000; exec "$0" one`, self)
	cmd.Stdin = strings.NewReader(text)
	out, err := cmd.CombinedOutput()
	if err != nil && ctx.Err() == nil && !strings.Contains(string(out), "out of memory") && !strings.Contains(string(out), "cannot allocate") {
		return fail("parse and compile of a file (%s, %d): %v\n%s", in.Kind, in.N, err, tail(string(out), 2000))
	}
	if err == nil {
		return nil
	}
	msg := fmt.Sprintf("a file of %d bytes is not parsed and compiled within %v (%s, %d)", len(text), limit, in.Kind, in.N)
	if in.N >= 12 {
		return failKey("expansion "+in.Kind, "%s", msg)
	}
	return fail("%s", msg)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// parseStdin parses and compiles the file that it reads.
func parseStdin() {
	m, err := yaml.Parse(os.Stdin)
	if err != nil {
		return
	}
	for _, r := range m.Resources {
		if p, ok := r.(*yaml.Pipeline); ok {
			comp := &compiler.Compiler{SkipFunc: compiler.SkipFunc(compiler.SkipData{Branch: strings.Repeat("a", 60)})}
			comp.Compile(p)
		}
	}
}
