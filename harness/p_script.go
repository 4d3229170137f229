package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/compiler/transform"
	"pgregory.net/rapid"
)

// ---- C17: commands are run by a real shell ----

// CmdM is a harmless command with a known effect.
type CmdM struct {
	Kind string `json:"kind"`
	Text string `json:"text,omitempty"`
	How  int    `json:"how,omitempty"`
	N    int    `json:"n,omitempty"`
}

// ScriptCase are steps with commands.
type ScriptCase struct {
	Steps   [][]CmdM `json:"steps"`
	Service int      `json:"service,omitempty"` // this many steps are services
	Env     string   `json:"env,omitempty"`     // the variable CI_X
	Machine string   `json:"machine,omitempty"`
	User    string   `json:"user,omitempty"`
	Pass    string   `json:"pass,omitempty"`
	Old     bool     `json:"old,omitempty"` // there is an old netrc file
	Bash    bool     `json:"bash,omitempty"`
	Style   []int    `json:"style,omitempty"`
}

var hostilePieces = []string{"$(mark)", "`mark`", "$(mark", "`mark", "$V", "${CI_X}", "$CI_X", "${", "$((", "$$", "$?", "$", "\"", "\"", "'", "\\", "\\\\", "\\$", "\\\"", "\\`", "\\n", "\\c", "\\0", "%", "%s", "%q", "%!", "!", "!!", "#", " # ", ";", "; mark;", "&", "& mark &", "|", "| mark", "<", ">", "*", "?", "~", "(", ")", "{", "}", "[", "]", "EOF", "&& mark", "|| mark", "\n", "\nmark\n", "\t", "é", "日本", "😀", "\u00a0", "\u2028", "\x01", "\a", "\x1b", "\x7f", "\r", " ", "  ", "a", "b c", "-n", "-e", "=", ",", "+", "echo + ", "set +e", "exit 1"}

func hostileText(t *rapid.T) string {
	return strings.Join(listOf(t, 0, 5, func(t *rapid.T) string { return pick(t, hostilePieces) }), "")
}

func hostileLine(t *rapid.T) string {
	return strings.NewReplacer("\n", "", "\r", "").Replace(hostileText(t))
}

func genCmd(t *rapid.T) CmdM {
	c := CmdM{Kind: pick(t, []string{"rec", "rec", "rec", "rec", "say", "say", "say", "set", "get", "get", "sub", "env", "noop", "noop", "blank", "cd", "pwd", "fn", "call", "if", "okfail", "fail", "fail", "netrc", "setplus", "setminus", "exit0", "sleepy", "raw"})}
	switch c.Kind {
	case "fail", "exit0":
		if chance(t, 2) {
			c.Kind = "rec"
		}
	}
	c.Text = hostileText(t)
	if chance(t, 2) {
		// text that all shells print in the same way.
		c.Text = strings.Map(func(r rune) rune {
			if r == '\\' || !strconv.IsPrint(r) {
				return -1
			}
			return r
		}, c.Text)
	}
	c.How = num(t, 0, 5)
	c.N = num(t, 1, 255)
	if c.Kind == "blank" {
		c.Text = pick(t, []string{"", " ", "\n", "\t", "#", "# a", "\n\n", ":"})
	}
	return c
}

func genScript(t *rapid.T) ScriptCase {
	c := ScriptCase{}
	c.Steps = listOf(t, 1, 2, func(t *rapid.T) []CmdM { return listOf(t, 1, 6, genCmd) })
	c.Service = num(t, 0, len(c.Steps)-1)
	c.Env = noNull(cleanText(hostileText(t)))
	if chance(t, 3) {
		c.Machine = pick(t, []string{"github.com", "a", "a.b", "$(mark)", "h\"'"})
		c.User = nonEmpty(t, hostileLine)
		c.Pass = nonEmpty(t, hostileLine)
	}
	c.Old = chance(t, 4)
	c.Bash = chance(t, 2)
	if chance(t, 2) {
		c.Style = genStyle(t)
	}
	return c
}

func singleQuote(s string) string { return "'" + strings.ReplaceAll(s, "'", `'"'"'`) + "'" }

func doubleQuote(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`, "$", `\$`, "`", "\\`").Replace(s) + `"`
}

// word is a shell word with the value of s.
func word(s string, how int) string {
	switch how % 3 {
	case 0:
		return singleQuote(s)
	case 1:
		return doubleQuote(s)
	default:
		i := len(s) / 2
		for i < len(s) && !utf8.RuneStart(s[i]) {
			i++
		}
		return singleQuote(s[:i]) + doubleQuote(s[i:])
	}
}

const toLog = ` >> "$LOG"`

// shText is the text of the command.
func (c CmdM) shText() string {
	rec := func(w string) string { return `printf '%s@@' ` + w + toLog }
	switch c.Kind {
	case "rec":
		switch c.How {
		case 3:
			// a here document. The text ends before the marker.
			body := strings.ReplaceAll(c.Text, "\r", "")
			return "{ cat <<'E_O_F'\n" + body + "\nE_O_F\nprintf '@@'; }" + toLog
		case 4:
			return rec(word(c.Text, c.N)) + " # $(mark) `mark` \"'"
		case 5:
			switch c.N % 4 {
			case 0:
				// an escaped blank at the end is a part of the word.
				return `printf '%s@@' >> "$LOG" ` + word(c.Text, c.N/4) + "\\ "
			case 1:
				return "\t" + rec(word(c.Text, c.N/4)) + " \t\n\n"
			}
			return "  " + rec(word(c.Text, c.N)) + " \\\n  " + "&& :\n"
		}
		return rec(word(c.Text, c.How))
	case "say":
		if c.How == 0 {
			return "echo one\necho two"
		}
		if c.How%2 == 0 {
			return "cat <<'E_O_F'\n" + c.Text + "\nE_O_F"
		}
		return `printf '%s\n' ` + word(c.Text, c.How)
	case "set":
		return "V=" + word(c.Text, c.How)
	case "get":
		return rec([]string{`"$V"`, `"${V}"`, `"${V-unset}"`}[c.How%3])
	case "sub":
		inner := `printf 'once@@'` + toLog + `; printf '%s' ` + strings.ReplaceAll(singleQuote(subSafe(c.Text)), "`", "")
		if c.How%2 == 0 {
			return rec(`"$(` + inner + `)"`)
		}
		return `W=$(` + inner + `); ` + rec(`"$W"`)
	case "env":
		return rec(`"$CI_X"`)
	case "noop":
		switch c.How {
		case 0:
			return ": " + singleQuote(c.Text)
		case 1:
			return "true # " + strings.NewReplacer("\n", " ", "\r", " ").Replace(c.Text)
		case 2:
			return "# " + strings.NewReplacer("\n", " ", "\r", " ").Replace(c.Text)
		case 3:
			return ": <<'E_O_F'\n" + c.Text + "\nE_O_F"
		default:
			return ": " + doubleQuote(c.Text)
		}
	case "blank":
		return c.Text
	case "cd":
		return `mkdir -p d && cd d`
	case "pwd":
		return rec(`"${PWD##*/}"`)
	case "fn":
		return "f() {\n  " + rec(`"$1"`) + "\n}"
	case "call":
		return "if command -v f > /dev/null; then f " + word(c.Text, c.How) + "; fi"
	case "if":
		return "if true\nthen\n" + rec(word(c.Text, c.How)) + "\nfi"
	case "okfail":
		return []string{"false || " + rec(word(c.Text, 0)), "if false; then mark; fi\n" + rec(word(c.Text, 0)), "! false"}[c.How%3]
	case "fail":
		return []string{"false", fmt.Sprintf("(exit %d)", c.N), fmt.Sprintf("exit %d", c.N), "test a = b", "nosuchcommand_x", "{ false; mark; }"}[c.How]
	case "netrc":
		return rec([]string{`"${CI_NETRC_USERNAME-unset}"`, `"${CI_NETRC_PASSWORD-unset}"`, `"${DRONE_NETRC_USERNAME-unset}"`, `"${DRONE_NETRC_PASSWORD-unset}"`}[c.How%4])
	case "setplus":
		return "set +e"
	case "setminus":
		return "set -e"
	case "exit0":
		return "exit 0"
	case "sleepy":
		return ":"
	default: // raw
		return []string{"printf 'a@@'" + toLog, `printf "b@@"` + toLog, `eval "printf 'c@@'"` + toLog}[c.How%3]
	}
}

// subSafe is text that means the same within a command
// substitution, without trailing line breaks.
func subSafe(s string) string {
	return strings.TrimRight(strings.NewReplacer("`", "", "\r", "", "\x01", "", "'", "").Replace(s), "\n")
}

// shModel is the state of the shell.
type shModel struct {
	log    []string
	out    []string // the text printed by each command
	ran    int      // commands that started
	v      *string
	f      bool
	d      int
	e      bool
	status int
	ended  bool
}

func (m *shModel) run(c CmdM, in *ScriptCase) {
	out := ""
	m.ran++
	m.status = 0
	fails := func(n int) {
		m.status = n
		if m.e && n != 0 {
			m.ended = true
		}
	}
	rec := func(s string) { m.log = append(m.log, s) }
	switch c.Kind {
	case "rec":
		if c.How == 3 {
			rec(strings.ReplaceAll(c.Text, "\r", "") + "\n")
		} else if c.How == 5 && c.N%4 == 0 {
			rec(c.Text + " ")
		} else {
			rec(c.Text)
		}
	case "say":
		if c.How == 0 {
			out = "one\ntwo\n"
		} else {
			out = c.Text + "\n"
		}
	case "set":
		v := c.Text
		m.v = &v
	case "get":
		switch {
		case m.v != nil:
			rec(*m.v)
		case c.How%3 == 2:
			rec("unset")
		default:
			rec("")
		}
	case "sub":
		rec("once")
		rec(subSafe(c.Text))
	case "env":
		rec(in.Env)
	case "cd":
		m.d++
	case "pwd":
		if m.d > 0 {
			rec("d")
		} else {
			rec("work")
		}
	case "fn":
		m.f = true
	case "call":
		if m.f {
			rec(c.Text)
		}
	case "if":
		rec(c.Text)
	case "okfail":
		if c.How%3 < 2 {
			rec(c.Text)
		}
	case "fail":
		switch c.How {
		case 0, 3:
			fails(1)
		case 1:
			fails(c.N)
		case 2:
			m.status = c.N
			m.ended = true
		case 4:
			fails(127)
		case 5:
			if m.e {
				fails(1)
			} else {
				rec("MARK")
			}
		}
	case "netrc":
		rec("unset")
	case "setplus":
		m.e = false
	case "setminus":
		m.e = true
	case "exit0":
		m.ended = true
	case "raw":
		rec([]string{"a", "b", "c"}[c.How%3])
	}
	m.out = append(m.out, out)
}

// plainTrace says that the trace of the command is the same in
// all shells.
func plainTrace(s string) bool {
	for _, r := range s {
		if r == '\\' || r != '\n' && !strconv.IsPrint(r) {
			return false
		}
	}
	return true
}

func checkScript(c *C, in ScriptCase) *V {
	p := PipeM{Kind: "pipeline", Name: "p"}
	for i, cmds := range in.Steps {
		s := StepM{Name: fmt.Sprintf("s%d", i), Image: "alpine"}
		for _, cmd := range cmds {
			s.Commands = append(s.Commands, cleanText(cmd.shText()))
		}
		if in.Env != "" {
			s.Env = []EnvM{{K: "CI_X", V: in.Env}}
		}
		if i < in.Service {
			p.Services = append(p.Services, s)
		} else {
			p.Steps = append(p.Steps, s)
		}
	}
	cc := CompCase{P: p, Style: in.Style}
	forms, text, v := cc.forms()
	if v != nil {
		return v
	}
	if in.Style != nil && len(forms) < 2 {
		return c.Discard("yaml library reads the text differently")
	}
	comp := new(compiler.Compiler)
	comp.TransformFunc = transform.WithNetrc(in.Machine, in.User, in.Pass)
	spec := comp.Compile(forms[len(forms)-1])
	c.NonTrivialIf(true)
	c.ClassIf(in.Machine != "", "netrc")
	for i := range in.Steps {
		name := fmt.Sprintf("s%d", i)
		var step *engine.Step
		for _, s := range spec.Steps {
			if s.Metadata.Name == name {
				step = s
			}
		}
		if step == nil {
			return fail("step %s is not compiled", name)
		}
		if v := runScript(c, &in, i, spec, step); v != nil {
			v.Msg += "\n" + text
			return v
		}
	}
	return nil
}

var shTools = []string{"cat", "chmod", "mkdir"}

func runScript(c *C, in *ScriptCase, i int, spec *engine.Spec, step *engine.Step) *V {
	root := filepath.Join(c.scratch, "sh")
	if err := os.RemoveAll(root); err != nil {
		panic("harness: " + err.Error())
	}
	must := func(err error) {
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	for _, d := range []string{"bin", "home", "work", "files"} {
		must(os.MkdirAll(filepath.Join(root, d), 0755))
	}
	for _, tool := range shTools {
		path, err := exec.LookPath(tool)
		must(err)
		must(os.Symlink(path, filepath.Join(root, "bin", tool)))
	}
	must(os.WriteFile(filepath.Join(root, "bin", "mark"), []byte("#!/bin/sh\nprintf 'MARK@@'"+toLog+"\n"), 0755))
	netrc := filepath.Join(root, "home", ".netrc")
	if in.Old {
		must(os.WriteFile(netrc, []byte("machine old\nlogin a\npassword a much longer password than the new one\n"), 0644))
	}
	log := filepath.Join(root, "log")
	must(os.WriteFile(log, nil, 0644))

	// the files the step mounts.
	argv := append(append([]string{}, step.Docker.Command...), step.Docker.Args...)
	mounted := false
	for n, m := range step.Files {
		for _, f := range spec.Files {
			if f.Metadata.Name != m.Name {
				continue
			}
			path := filepath.Join(root, "files", fmt.Sprint(n))
			must(os.WriteFile(path, f.Data, 0755))
			for k := range argv {
				if k > 0 && argv[k] == m.Path {
					argv[k] = path
					mounted = true
				}
			}
		}
	}
	if len(argv) < 2 || argv[0] != "/bin/sh" || !mounted {
		return fail("the step runs %q, which is no script that it mounts", append(append([]string{}, step.Docker.Command...), step.Docker.Args...))
	}
	bin := argv[0]
	if in.Bash {
		if _, err := os.Stat("/bin/bash"); err == nil {
			bin = "/bin/bash" // as sh
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Args = argv
	cmd.Dir = filepath.Join(root, "work")
	for k, v := range step.Envs {
		if strings.ContainsRune(v, 0) || k == "HOME" || k == "PATH" || k == "LOG" {
			continue
		}
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	cmd.Env = append(cmd.Env, "HOME="+filepath.Join(root, "home"), "PATH="+filepath.Join(root, "bin"), "LOG="+log)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	cmd.WaitDelay = time.Second
	err := cmd.Run()
	status := 0
	var ee *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &ee) && ctx.Err() == nil:
		status = ee.ExitCode()
	default:
		return fail("the script does not end: %v", err)
	}

	m := &shModel{e: true}
	cmds := in.Steps[i]
	for k := range cmds {
		if m.ended {
			break
		}
		m.run(cmds[k], in)
	}
	c.ClassIf(m.ended && m.status != 0, "stopped by a failing command")
	c.ClassIf(!m.e, "set +e")
	script := func() string {
		var s []string
		for _, cmd := range cmds {
			s = append(s, fmt.Sprintf("%q", cmd.shText()))
		}
		return strings.Join(s, "\n") + "\nstdout: " + strconv.Quote(clip(stdout.String(), 2000)) + "\nstderr: " + clip(stderr.String(), 1000)
	}
	b, err := os.ReadFile(log)
	must(err)
	want := ""
	for _, l := range m.log {
		want += cleanText(l) + "@@"
	}
	if string(b) != want {
		return fail("the commands of step %d did\n%q, want\n%q\n%s", i, b, want, script())
	}
	if status != m.status {
		return fail("step %d exits with %d, want %d\n%s", i, status, m.status, script())
	}
	// the netrc file.
	nb, err := os.ReadFile(netrc)
	switch {
	case in.Machine != "" && in.User != "" && in.Pass != "":
		want := fmt.Sprintf("machine %s\nlogin %s\npassword %s\n", in.Machine, in.User, in.Pass)
		if err != nil || string(nb) != want {
			return fail("the netrc file is %q (%v), want %q", nb, err, want)
		}
		if info, err := os.Stat(netrc); err != nil || info.Mode().Perm()&0077 != 0 {
			return fail("the netrc file has mode %v", info.Mode())
		}
	case in.Old:
		if !strings.HasPrefix(string(nb), "machine old") {
			return fail("the netrc file was overwritten with %q", nb)
		}
	case err == nil:
		return fail("there is a netrc file: %q", nb)
	}
	// each command is printed before it runs.
	plain := true
	for k := 0; k < m.ran; k++ {
		plain = plain && plainTrace(cleanText(cmds[k].shText()))
	}
	c.ClassIf(plain, "trace is compared")
	if plain {
		rest := stdout.String()
		for k := 0; k < m.ran; k++ {
			cmdText := cleanText(cmds[k].shText())
			got := false
			for _, trace := range []string{"+ " + cmdText + "\n", "+ " + strings.ReplaceAll(cmdText, "\n", `\n`) + "\n"} {
				if strings.HasPrefix(rest, trace) {
					rest = rest[len(trace):]
					got = true
					break
				}
			}
			if !got {
				return fail("command %d is not printed as it is before it runs: %q is followed by %q, want %q", k, stdout.String()[:stdout.Len()-len(rest)], clip(rest, 300), "+ "+cmdText)
			}
			o := cleanText(m.out[k])
			if !strings.HasPrefix(rest, o) {
				return fail("command %d prints %q, want %q", k, clip(rest, 300), o)
			}
			rest = rest[len(o):]
		}
		if rest != "" {
			return fail("%q is printed in the end\n%s", rest, script())
		}
	} else if n := strings.Count("\n"+stdout.String(), "\n+ "); n < 1 {
		return fail("no command is printed: %q", stdout.String())
	}
	// nothing else was written.
	for _, d := range []string{"work", "home"} {
		es, err := os.ReadDir(filepath.Join(root, d))
		must(err)
		for _, e := range es {
			if e.Name() != ".netrc" && !(e.Name() == "d" && m.d > 0) {
				return fail("the file %s was created\n%s", e.Name(), script())
			}
		}
	}
	return nil
}

// ---- C18: the windows script ----

// WinCase are commands for powershell.
type WinCase struct {
	Commands []string `json:"commands"`
	Env      []KV     `json:"env,omitempty"`
	Service  bool     `json:"service,omitempty"`
	Style    []int    `json:"style,omitempty"`
}

var winPieces = append([]string{"‘", "’", "‚", "‛", "“", "”", "''", "@'", "'@", "@\"", "\"@", "`\"", "`'", "$Env:X", "$($Env:X)", "Write-Output", "exit 0", "');", "('", "+ ", "<#", "#>", "$LASTEXITCODE", "go test ./...", "dotnet build", "powershell", "C:\\a", "\\"}, hostilePieces...)

func genWin(t *rapid.T) WinCase {
	c := WinCase{}
	c.Commands = listOf(t, 1, 5, func(t *rapid.T) string {
		switch num(t, 0, 3) {
		case 0:
			return textLine(t)
		default:
			return cleanText(strings.Join(listOf(t, 0, 6, func(t *rapid.T) string { return pick(t, winPieces) }), ""))
		}
	})
	c.Env = genKVs(t, 2, envName, safeIdent)
	c.Service = chance(t, 5)
	if chance(t, 2) {
		c.Style = genStyle(t)
	}
	return c
}

func isPSQuote(r rune) bool {
	return r == '\'' || r >= 0x2018 && r <= 0x201b
}

func isPSDoubleQuote(r rune) bool {
	return r == '"' || r >= 0x201c && r <= 0x201e
}

// psToken is a token of a powershell script.
type psToken struct {
	kind  string // string, expandable, comment, other
	value string
	end   int // in runes
}

// psNext reads a token: strings and comments as powershell reads
// them, and single characters.
func psNext(s []rune, i int) psToken {
	lineStart := func(k int) bool { return k > 0 && s[k-1] == '\n' }
	switch {
	case s[i] == '@' && i+1 < len(s) && (isPSQuote(s[i+1]) || isPSDoubleQuote(s[i+1])):
		// a here string: up to the quote at the begin of a line.
		j := i + 2
		for j < len(s) && (s[j] == ' ' || s[j] == '\t' || s[j] == '\r') {
			j++
		}
		if j < len(s) && s[j] == '\n' {
			same := isPSQuote
			if isPSDoubleQuote(s[i+1]) {
				same = isPSDoubleQuote
			}
			for k := j + 1; k+1 < len(s); k++ {
				if lineStart(k) && same(s[k]) && s[k+1] == '@' {
					return psToken{"here", string(s[j+1 : k]), k + 2}
				}
			}
			return psToken{"unterminated", "", len(s)}
		}
	case isPSQuote(s[i]):
		var v []rune
		for j := i + 1; j < len(s); j++ {
			if isPSQuote(s[j]) {
				if j+1 < len(s) && isPSQuote(s[j+1]) {
					v = append(v, s[j])
					j++
					continue
				}
				return psToken{"string", string(v), j + 1}
			}
			v = append(v, s[j])
		}
		return psToken{"unterminated", string(v), len(s)}
	case isPSDoubleQuote(s[i]):
		var v []rune
		kind := "string"
		for j := i + 1; j < len(s); j++ {
			switch {
			case s[j] == '`' && j+1 < len(s):
				j++
				v = append(v, s[j])
			case isPSDoubleQuote(s[j]):
				if j+1 < len(s) && isPSDoubleQuote(s[j+1]) {
					v = append(v, s[j])
					j++
					continue
				}
				return psToken{kind, string(v), j + 1}
			default:
				if s[j] == '$' {
					kind = "expandable"
				}
				v = append(v, s[j])
			}
		}
		return psToken{"unterminated", string(v), len(s)}
	case s[i] == '`' && i+1 < len(s):
		return psToken{"other", string(s[i : i+2]), i + 2}
	case s[i] == '#':
		j := i
		for j < len(s) && s[j] != '\n' {
			j++
		}
		return psToken{"comment", string(s[i:j]), j}
	}
	return psToken{"other", string(s[i : i+1]), i + 1}
}

var (
	psPrint = regexp.MustCompile(`(?i)\n\s*(write-output|write-host|echo)\b`)
	psExit  = regexp.MustCompile(`(?is)if\s*\(([^{}]*)\)\s*\{\s*exit\s+([^\s;}]+)\s*;?\s*\}`)

	// conditions that are not true for all exit codes but 0.
	psWrongExit = map[string]bool{"$lastexitcode-gt0": true, "$lastexitcode-lt0": true, "$lastexitcode-eq0": true, "$lastexitcode-ge0": true, "$lastexitcode-le0": true,
		"$lastexitcode-eq1": true, "$lastexitcode-ne1": true, "$lastexitcode-gt1": true, "!$lastexitcode": true, "-not$lastexitcode": true}
)

// checkWinHeader checks what comes before the commands: the file
// with the credentials, their removal from the environment, and
// that errors stop the script.
func checkWinHeader(rs []rune) *V {
	var code strings.Builder // without here strings and comments
	netrc := -1
	for i := 0; i < len(rs); {
		tok := psNext(rs, i)
		switch {
		case tok.kind == "here" && strings.Contains(tok.value, "machine"):
			f := strings.Fields(strings.ToLower(tok.value))
			ok := len(f) == 6 && f[0] == "machine" && f[2] == "login" && f[4] == "password"
			for k, name := range []string{"machine", "username", "password"} {
				ok = ok && (f[2*k+1] == "$env:ci_netrc_"+name || f[2*k+1] == "$env:drone_netrc_"+name)
			}
			if !ok {
				return fail("the netrc file is %q", tok.value)
			}
			netrc = code.Len()
		case tok.kind == "string" && strings.HasPrefix(tok.value, "+ "), tok.kind == "expandable":
			i = len(rs)
			continue
		case tok.kind == "comment":
		default:
			code.WriteString(string(rs[i:tok.end]))
		}
		i = tok.end
	}
	text := code.String()
	if netrc < 0 {
		return fail("no netrc file is written: %s", text)
	}
	if !regexp.MustCompile(`(?is)if\s*\(\s*(\$null\s*-ne\s*)?\$env:(CI|DRONE)_NETRC_MACHINE\b`).MatchString(text[:netrc]) || !strings.Contains(text[netrc:], "_netrc") {
		return fail("the netrc file is not written if the credentials are set: %s", text)
	}
	for _, name := range []string{"CI_NETRC_USERNAME", "CI_NETRC_PASSWORD", "DRONE_NETRC_USERNAME", "DRONE_NETRC_PASSWORD", "CI_SCRIPT"} {
		clear := `(?i)(SetEnvironmentVariable\(\s*["']NAME["']\s*,\s*(\$null|''|"")\s*\)|Remove-Item\s+(-Path\s+)?["']?Env:[\\/]?NAME\b|\$Env:NAME\s*=\s*(\$null|''|""))`
		if !regexp.MustCompile(strings.Replace(clear, "NAME", name, -1)).MatchString(text[netrc:]) {
			return fail("the commands can read the variable %s: %s", name, text)
		}
	}
	if !regexp.MustCompile(`(?i)\$ErrorActionPreference\s*=\s*["']Stop["']`).MatchString(text) {
		return fail("errors do not stop the script: %s", text)
	}
	return nil
}

func checkWin(c *C, in WinCase) *V {
	s := StepM{Name: "s", Image: "windows", Commands: in.Commands}
	for _, kv := range in.Env {
		s.Env = append(s.Env, EnvM{K: kv.K, V: kv.V})
	}
	p := PipeM{Kind: "pipeline", Name: "p", OS: "windows", Arch: "amd64"}
	if in.Service {
		p.Services = []StepM{s}
	} else {
		p.Steps = []StepM{s}
	}
	cc := CompCase{P: p, Style: in.Style}
	forms, text, v := cc.forms()
	if v != nil {
		return v
	}
	if in.Style != nil && len(forms) < 2 {
		return c.Discard("yaml library reads the text differently")
	}
	comp := new(compiler.Compiler)
	spec := comp.Compile(forms[len(forms)-1])
	var step *engine.Step
	for _, x := range spec.Steps {
		if x.Metadata.Name == "s" {
			step = x
		}
	}
	if step == nil {
		return fail("the step is not compiled\n%s", text)
	}
	argv := strings.Join(append(append([]string{}, step.Docker.Command...), step.Docker.Args...), " ")
	lower := strings.ToLower(argv)
	if !strings.HasPrefix(lower, "powershell") {
		return fail("the step runs %q", argv)
	}
	// the script is in the environment variable that the
	// command line decodes.
	script, found := "", false
	for k, e := range step.Envs {
		if regexp.MustCompile(`\$env:` + regexp.QuoteMeta(strings.ToLower(k)) + `(\W|$)`).MatchString(lower) {
			b, err := base64.StdEncoding.DecodeString(e)
			if err != nil {
				return fail("the variable %s is not base64: %v", k, err)
			}
			script, found = string(b), true
		}
	}
	if !found || !strings.Contains(lower, "frombase64string") || !regexp.MustCompile(`\|\s*(iex|invoke-expression)\s*;?\s*$|^[^|]*\b(iex|invoke-expression)\s*\(`).MatchString(lower) {
		return fail("the step runs %q, which is no script of its environment", argv)
	}
	for _, kv := range in.Env {
		if strings.HasPrefix(kv.K, "DRONE_WORKSPACE") || strings.HasPrefix(kv.K, "CI_WORKSPACE") {
			continue // the compiler's (C22)
		}
		if step.Envs[kv.K] != kv.V && kv.K != "SHELL" && kv.K != "CI_SCRIPT" {
			return fail("the environment variable %s is %q, want %q", kv.K, step.Envs[kv.K], kv.V)
		}
	}
	if !utf8.ValidString(script) {
		return fail("the script is not utf-8")
	}
	c.NonTrivialIf(strings.IndexFunc(strings.Join(in.Commands, ""), func(r rune) bool { return isPSQuote(r) || isPSDoubleQuote(r) || r == '$' || r == '`' }) >= 0)
	rs := []rune(script)
	i := 0
	if v := checkWinHeader(rs); v != nil {
		return v
	}
	for n, cmd := range in.Commands {
		what := func() string {
			return fmt.Sprintf("command %d (%q): the script reads %q", n, cmd, clip(string(rs[minInt(i, len(rs)):]), 600))
		}
		// the trace, a literal that begins with a plus sign.
		trace := ""
		for {
			if i >= len(rs) {
				return fail("the script ends before command %d\n%s", n, script)
			}
			tok := psNext(rs, i)
			i = tok.end
			if tok.kind == "unterminated" {
				return fail("a string does not end before %s", what())
			}
			if tok.kind == "expandable" && strings.HasPrefix(tok.value, "+ ") {
				return fail("printing expands %s", what())
			}
			if tok.kind == "string" && strings.HasPrefix(tok.value, "+ ") {
				trace = tok.value[2:]
				break
			}
		}
		plain := plainTrace(cmd) && !strings.ContainsAny(cmd, "\"$\n")
		if plain && trace != cmd && trace != `"`+cmd+`"` {
			return fail("%s is printed as %q", what(), trace)
		}
		if want := strings.Map(lettersOnly, cmd); plainTrace(cmd) && !strings.ContainsAny(cmd, "\n") && strings.Map(lettersOnly, trace) != want {
			return fail("%s is printed as %q", what(), trace)
		}
		// the command follows, without anything of it before.
		rest := string(rs[i:])
		glue := rest
		if k := strings.Index(rest, "\n& "); k >= 0 {
			glue = rest[:k+3]
		}
		if len(glue) > 40 || strings.IndexFunc(glue, func(r rune) bool { return isPSQuote(r) || isPSDoubleQuote(r) || r == '$' || r == '#' }) >= 0 {
			return fail("after the print, %q is run: %s", clip(glue, 200), what())
		}
		if !strings.HasPrefix(rest[len(glue):], cmd) {
			return fail("the script does not run %s", what())
		}
		i += utf8.RuneCountInString(glue) + utf8.RuneCountInString(cmd)
		// the exit code is checked before the next command.
		tail := string(rs[i:])
		if loc := psPrint.FindStringIndex(tail); loc != nil {
			tail = tail[:loc[0]]
		}
		if m := psExit.FindStringSubmatchIndex(tail); m != nil {
			cond := strings.ToLower(strings.Join(strings.Fields(tail[m[2]:m[3]]), ""))
			code := strings.ToLower(tail[m[4]:m[5]])
			if psWrongExit[cond] || code != "$lastexitcode" {
				return fail("the exit code is checked with %q, which follows %s", tail, what())
			}
			if rest := strings.Trim(tail[m[1]:], " \t\r\n;"); rest != "" {
				return fail("%q is run after %s", rest, what())
			}
		}
		k := strings.Index(tail, "$LASTEXITCODE")
		if k < 0 || !strings.Contains(tail[k:], "exit ") {
			return fail("the exit code is not checked: %q follows %s", tail, what())
		}
		sep := strings.TrimLeft(tail[:k], " \t")
		if !strings.HasPrefix(sep, ";") && !strings.HasPrefix(sep, "\n") && !strings.HasPrefix(sep, "\r\n") {
			return fail("the command goes on: %q follows %s", tail, what())
		}
		if endsInComment(cmd) && !strings.Contains(sep, "\n") {
			return fail("the exit code is checked in a comment: %q follows %s", tail, what())
		}
		c.ClassIf(endsInComment(cmd), "ends with a comment")
	}
	return nil
}

// endsInComment says that what follows the command on the same
// line is a part of a comment.
func endsInComment(cmd string) bool {
	rs := []rune(cmd)
	for i := 0; i < len(rs); {
		tok := psNext(rs, i)
		if tok.kind == "comment" && i > 0 && !strings.ContainsRune(" \t\n;", rs[i-1]) {
			i++
			continue
		}
		if tok.kind == "comment" && tok.end == len(rs) {
			return true
		}
		i = tok.end
	}
	return false
}

func lettersOnly(r rune) rune {
	if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
		return r
	}
	return -1
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func init() {
	register(&Prop{ID: "C17", Title: "the shell runs exactly the commands of the step",
		Assumptions: []string{"the shells are the /bin/sh of this machine and bash as sh", "the trace is compared exactly for commands without backslashes and unprintable characters: the echo of shells differs for them"},
		Subs: []Sub{
			sub("execution", "steps with harmless commands (records, variables, substitutions, functions, here documents, failing commands, comments) holding hostile text, with netrc credentials; the compiled script is run by /bin/sh or bash in a scratch directory, and the log, exit code, printed text and files are compared with a model of the commands; non-trivial: every case", 8000, 200000, genScript, checkScript).shards(8),
		}})
	register(&Prop{ID: "C18", Title: "the windows script holds exactly the commands of the step",
		Assumptions: []string{"powershell is not installed: the script is decoded and read with a tokenizer for powershell strings, not run"},
		Subs: []Sub{
			sub("structure", "commands of quotes of all kinds, here strings, variables, escapes and text; non-trivial: holds quotes, $ or `", 32000, 800000, genWin, checkWin).shards(4),
		}})
}
