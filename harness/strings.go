package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// ---- draw helpers. All randomness comes from rapid. ----

func pick[T any](t *rapid.T, xs []T) T { return rapid.SampledFrom(xs).Draw(t, "p") }

// chance is true in about one of n draws, and shrinks to false.
func chance(t *rapid.T, n int) bool { return rapid.IntRange(0, n-1).Draw(t, "c") == n-1 }

func num(t *rapid.T, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, "n") }

func listOf[T any](t *rapid.T, lo, hi int, f func(*rapid.T) T) []T {
	n := length(t, lo, hi)
	var out []T
	for i := 0; i < n; i++ {
		out = append(out, f(t))
	}
	return out
}

// length draws the length of a list. Some lists are much longer
// than the bound: sorting, for one, is stable for short lists only.
func length(t *rapid.T, lo, hi int) int {
	n := num(t, lo, hi)
	if hi >= 2 && n == hi && chance(t, 30) {
		n = num(t, hi, hi+30)
	}
	return n
}

// ---- the dictionary: literals of the code under test. ----

var (
	dictOnce sync.Once
	dictStr  []string
	dictInt  []int
)

func repoDir() string {
	if d := os.Getenv("VH_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadDict() {
	strs := map[string]bool{}
	ints := map[int]bool{}
	filepath.Walk(repoDir(), func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() {
			if n := info.Name(); n == ".git" || n == "vendor" || n == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
		if err != nil {
			return nil
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.Field:
					if n.Tag != nil {
						ast.Inspect(n.Type, func(ast.Node) bool { return true })
						return false
					}
				case *ast.BasicLit:
					switch n.Kind {
					case token.STRING:
						if s, err := strconv.Unquote(n.Value); err == nil && len(s) > 0 && len(s) <= 48 && utf8.ValidString(s) && !strings.ContainsAny(s, "\x00") {
							strs[s] = true
						}
					case token.CHAR:
						if s, err := strconv.Unquote(n.Value); err == nil && utf8.ValidString(s) {
							strs[s] = true
						}
					case token.INT:
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil && v >= 0 && v < 1<<31 {
							ints[int(v)] = true
							ints[int(v)+1] = true
							if v > 0 {
								ints[int(v)-1] = true
							}
						}
					}
				}
				return true
			})
		}
		return nil
	})
	for s := range strs {
		dictStr = append(dictStr, s)
	}
	for i := range ints {
		dictInt = append(dictInt, i)
	}
	sort.Strings(dictStr)
	sort.Ints(dictInt)
	if len(dictStr) == 0 {
		dictStr = []string{"clone"}
	}
	if len(dictInt) == 0 {
		dictInt = []int{0, 1}
	}
}

func dict(t *rapid.T) string {
	dictOnce.Do(loadDict)
	return pick(t, dictStr)
}

// dictLine is a single-line, printable dictionary entry.
func dictLine(t *rapid.T) string {
	return strings.TrimSpace(strings.Map(func(r rune) rune {
		if r < ' ' || r == 0x7f {
			return '.'
		}
		return r
	}, dict(t)))
}

func dictNum(t *rapid.T, max int) int {
	dictOnce.Do(loadDict)
	i := sort.SearchInts(dictInt, max+1)
	if i == 0 {
		return 0
	}
	return dictInt[num(t, 0, i-1)]
}

// ---- text ----

// scalars that yaml readers and writers get wrong.
var trickyText = []string{
	"", " ", "a b", "-", "- a", "-a", "--- a", "---", "...", "?", "? a", "?a", ":", ": a", ":a", "a:", "a: b", "a:b", "a :b",
	"#", "# a", "a # b", "a#b", "a #b", "&a", "& a", "*a", "* a", "!a", "! a", "!!str a", "|", ">", "|a", ">-", "%a", "@a", "`a`", "'", "\"", "'a'", "\"a\"", "it's", "say \"x\"",
	"{", "}", "[", "]", "{a", "[a", "a]", "{a: b}", "[a, b]", ",", "a,b", ",a",
	"true", "false", "True", "TRUE", "yes", "no", "Yes", "NO", "on", "off", "On", "y", "n", "Y", "N", "null", "Null", "NULL", "~", "~a", "=", "<<", "<<: a",
	"0", "1", "-1", "+1", "01", "007", "0o7", "0x1F", "0b11", "1_000", "1.0", "1.10", "1e3", "1E3", ".5", "5.", "-.5", ".inf", "-.inf", "+.inf", ".nan", ".NaN", "1:30", "12:30:45", "190:20:30",
	"2001-12-14", "2001-12-14t21:59:43.10-05:00", "2001-12-14 21:59:43",
	"123456789012345678901234567890", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1234567.5",
	" a", "a ", "\ta", "a\t", "a\tb", "a\nb", "a\n", "\na", "\n", "a\n\nb", "a\n b", " a\nb", "a\r\nb", "a\rb", "a\n---\nb", "a\n...\nb", "a\n# b", "a: b\nc: d",
	"\\", "a\\b", "a\\nb", "\\n", "$", "$A", "${A}", "$$", "$(a)", "%s", "%q", "%!", "100%",
	"é", "日本語", "😀", "a\u00a0b", "a\u2028b", "a\u0085b", "\ufeffa", "a\u200bb", "\u0007", "a\x1bb", "\x7f", "\u00e9: x",
	"a/b", "/a/b", "./a", "../a", "~/a", "c:\\a", "http://a.b/c?d=e&f=g#h", "user@host", "a=b", "a=b=c", "A=$B", "--flag", "-x", "key: [", "- - a", "- a: b",
}

var words = []string{"a", "b", "c", "build", "test", "deploy", "clone", "golang", "web", "db", "redis", "foo", "bar", "baz", "x1", "lint", "publish", "a-b", "a_b", "a.b", "FOO", "Foo", "production", "master", "develop"}

func ident(t *rapid.T) string {
	switch num(t, 0, 5) {
	case 0, 1, 2, 3:
		return pick(t, words)
	case 4:
		return rapid.StringMatching(`[a-z][a-z0-9_-]{0,10}`).Draw(t, "id")
	default:
		s := dictLine(t)
		if s == "" {
			return "a"
		}
		return s
	}
}

// safeIdent is a word made of letters, digits, - and _.
func safeIdent(t *rapid.T) string {
	if chance(t, 3) {
		return rapid.StringMatching(`[a-z][a-z0-9_-]{0,10}`).Draw(t, "id")
	}
	return pick(t, words)
}

// text is any text that a yaml document can hold.
func text(t *rapid.T) string {
	switch num(t, 0, 9) {
	case 0, 1:
		return pick(t, words)
	case 2, 3, 4:
		return pick(t, trickyText)
	case 5:
		return dict(t)
	case 6:
		return rapid.StringMatching(`[ -~]{0,20}`).Draw(t, "s")
	case 7:
		return cleanText(rapid.StringN(0, 12, 40).Draw(t, "s"))
	case 8:
		return pick(t, trickyText) + pick(t, []string{" ", "", ": ", " #", "\n", ", ", "-"}) + pick(t, trickyText)
	default:
		return strings.Repeat(pick(t, words)+pick(t, []string{" ", "-", ": ", "\n"}), num(t, 1, 40))
	}
}

// textLine is text without line breaks or control characters.
func textLine(t *rapid.T) string {
	return strings.Map(func(r rune) rune {
		if r < ' ' || r == 0x7f || r == 0x85 || r == 0x2028 || r == 0x2029 || r == 0xfeff {
			return -1
		}
		return r
	}, text(t))
}

// cleanText removes what yaml cannot represent at all.
func cleanText(s string) string {
	return strings.Map(func(r rune) rune {
		if r == utf8.RuneError || r >= 0xd800 && r < 0xe000 || r == 0xfffe || r == 0xffff || r == 0 {
			return -1
		}
		return r
	}, s)
}

func nonEmpty(t *rapid.T, f func(*rapid.T) string) string {
	s := f(t)
	if s == "" {
		return "a"
	}
	return s
}

var imageNames = []string{"golang", "alpine", "redis", "octocat/hello-world", "plugins/docker", "plugins/slack", "plugins/docker-extra", "library/golang", "drone/git", "drone/docker", "docker", "foo", "foo/bar", "gcr.io/foo/bar", "docker.io/plugins/docker", "docker.io/library/golang", "index.docker.io/plugins/docker", "localhost:5000/foo", "localhost/foo", "registry.example.com:443/a/b/c", "quay.io/plugins/docker", "a", "plugins/ecr", "plugins/gcr"}
var imageTags = []string{"", "", "", ":latest", ":1", ":1.10", ":3.8", ":linux-amd64", ":v1.2.3-alpine", ":a_b.c-d", "@sha256:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"}
var badImages = []string{"Golang", "UPPER/case", "a b", ":", "foo:", ":tag", "foo//bar", "-foo", "foo:bar:baz", "foo@sha256:12", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef", "${IMG}", "*", "foo:ta g", "/foo", "foo/", "http://foo/bar", "docker.io/", "é"}

func image(t *rapid.T) string {
	switch num(t, 0, 19) {
	case 19:
		return pick(t, badImages)
	case 18:
		return rapid.StringMatching(`[a-z0-9]{1,6}(/[a-z0-9._-]{1,6}){0,2}(:[a-zA-Z0-9_.-]{1,8})?`).Draw(t, "img")
	default:
		return pick(t, imageNames) + pick(t, imageTags)
	}
}

func goodImage(t *rapid.T) string { return pick(t, imageNames) + pick(t, imageTags) }

func absPath(t *rapid.T) string {
	switch num(t, 0, 4) {
	case 0:
		return "/" + pick(t, words)
	case 1:
		return "/" + pick(t, words) + "/" + pick(t, words)
	case 2:
		return pick(t, []string{"/", "/drone", "/drone/src", "/var/run/docker.sock", "/var/lib/docker", "/root/.ssh", "/go", "/etc/passwd", "/data/", "/a/../b", "/var/run"})
	case 3:
		return pick(t, []string{"c:\\data", "relative/path", ".", "a b", "/a:b", "$HOME/x"})
	default:
		return "/" + rapid.StringMatching(`[a-zA-Z0-9._/-]{1,16}`).Draw(t, "path")
	}
}

var envNames = []string{"FOO", "BAR", "PATH", "GOOS", "CGO_ENABLED", "CI", "foo", "A", "B", "HOME", "Y", "N", "PLUGIN_REPO", "DRONE_BRANCH", "X_1", "true", "null", "1", "~", "on"}

func envName(t *rapid.T) string {
	if chance(t, 5) {
		return rapid.StringMatching(`[A-Za-z_][A-Za-z0-9_]{0,8}`).Draw(t, "env")
	}
	if chance(t, 6) {
		return pick(t, reservedEnv)
	}
	return pick(t, envNames)
}

// reservedEnv are names that the compiler and its options use.
var reservedEnv = []string{"DRONE_WORKSPACE", "DRONE_WORKSPACE_BASE", "DRONE_WORKSPACE_PATH", "CI_WORKSPACE", "CI_WORKSPACE_BASE", "CI_WORKSPACE_PATH",
	"PLUGIN_DEPTH", "CI_SCRIPT", "SHELL", "CI_NETRC_MACHINE", "DRONE_NETRC_PASSWORD", "GIT_SSL_NO_VERIFY", "DOCKER_BUILD_IMAGE", "HTTP_PROXY", "no_proxy", "DRONE_TAG", "DRONE_BUILD_EVENT", "PLUGIN_REPO"}
