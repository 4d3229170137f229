package main

import (
	"bytes"
	"strings"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/converter/bitbucket"
	"github.com/drone/drone-yaml/yaml/converter/gitlab"
	"github.com/drone/drone-yaml/yaml/converter/legacy"
	"github.com/drone/drone-yaml/yaml/pretty"
	"pgregory.net/rapid"
)

// ---- C30: the choice of the converter ----

// ConvCase is a file of some format, with its name.
type ConvCase struct {
	Format string      `json:"format"`
	Legacy *LegacyM    `json:"legacy,omitempty"`
	Gitlab *GitlabM    `json:"gitlab,omitempty"`
	Bucket *BitbucketM `json:"bucket,omitempty"`
	Drone  *ManifestM  `json:"drone,omitempty"`
	Style  []int       `json:"style,omitempty"`
	Raw    string      `json:"raw,omitempty"`
	CRLF   bool        `json:"crlf,omitempty"`
	Before string      `json:"before,omitempty"` // comments
	Name   string      `json:"name"`
	Ref    string      `json:"ref,omitempty"`
	URL    URLM        `json:"url"`
}

var convNames = []string{".drone.yml", ".drone.yml", "", "bitbucket-pipelines.yml", ".gitlab-ci.yml", "circle.yml", ".circleci/config.yml", ".travis.yml", "ci.yml", "gitlab-ci.yml", "bitbucket-pipelines.yaml", "pipeline:", "ci/.gitlab-ci.yml", "ci/bitbucket-pipelines.yml", "/.gitlab-ci.yml", ".GITLAB-CI.YML", "my.gitlab-ci.yml", ".gitlab-ci.yml.orig", "Bitbucket-Pipelines.yml", "bitbucket-pipelines.yml ", "circle.yml"}

func (in *ConvCase) text() string {
	var s string
	switch in.Format {
	case "legacy":
		s, _ = emitDocs([]*Node{in.Legacy.node()}, in.Style, nil)
	case "gitlab":
		s, _ = emitDocs([]*Node{in.Gitlab.node()}, in.Style, nil)
	case "bitbucket":
		s, _ = emitDocs([]*Node{in.Bucket.node()}, in.Style, nil)
	case "drone":
		s, _ = emitDocs(in.Drone.nodes(), in.Style, nil)
	default:
		s = in.Raw
	}
	s = in.Before + s
	if in.CRLF {
		s = strings.Replace(strings.Replace(s, "\r\n", "\n", -1), "\n", "\r\n", -1)
	}
	return s
}

// hasPipeline says that a line opens a top level pipeline section.
func hasPipeline(text string) bool {
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "pipeline:") && strings.Trim(l[len("pipeline:"):], " \t\r\f") == "" {
			return true
		}
	}
	return false
}

func genConv(t *rapid.T) ConvCase {
	in := ConvCase{Format: pick(t, []string{"legacy", "legacy", "gitlab", "bitbucket", "drone", "drone", "raw"}), Name: pick(t, convNames), Ref: genRef(t), URL: genURL(t)}
	switch in.Format {
	case "legacy":
		m := genLegacy(t)
		in.Legacy = &m
	case "gitlab":
		m := genGitlab(t)
		in.Gitlab = &m
		if chance(t, 2) {
			in.Name = ".gitlab-ci.yml"
		}
	case "bitbucket":
		m := genBitbucket(t)
		in.Bucket = &m
		if chance(t, 2) {
			in.Name = "bitbucket-pipelines.yml"
		}
	case "drone":
		m := genManifest(t, optText())
		in.Drone = &m
	default:
		in.Raw = strings.Join(listOf(t, 0, 8, func(t *rapid.T) string {
			return pick(t, []string{"pipeline:\n", "pipeline: \t\n", "pipeline: {}\n", " pipeline:\n", "pipeline:", "xpipeline:\n", "pipelines:\n", "# pipeline:\n", "kind: pipeline\n", "---\n", "a: b\n", "  build:\n    image: golang\n", "a: |\n  pipeline:\n", "\n", "language: go\n", "\tx\n", "\xff\n", "pipeline:\r\n"})
		}), "")
	}
	if chance(t, 3) {
		in.Style = genStyle(t)
	}
	if in.Name != ".drone.yml" && chance(t, 2) {
		in.Name = pick(t, []string{".drone.yml", ".gitlab-ci.yml", "bitbucket-pipelines.yml"})
	}
	in.CRLF = chance(t, 8)
	in.Before = maybe(t, 4, func(t *rapid.T) string {
		return pick(t, []string{"# a comment\n", "\n\n", "# pipeline:\n", "#pipeline: x\n"})
	})
	return in
}

func checkConv(c *C, in ConvCase) *V {
	text := in.text()
	data := []byte(text)
	meta := converter.Metadata{Filename: in.Name, Ref: in.Ref, URL: in.URL.URL}
	c.Class(in.Format)
	var want []byte
	var wantErr error
	how := "returned as it is"
	converted := true
	switch {
	case in.Name == "bitbucket-pipelines.yml":
		how = "as bitbucket"
		want, wantErr = bitbucket.Convert(append([]byte(nil), data...), in.Ref)
	case in.Name == ".gitlab-ci.yml":
		how = "as gitlab"
		want, wantErr = gitlab.Convert(append([]byte(nil), data...))
	case hasPipeline(text):
		how = "as legacy"
		want, wantErr = legacy.Convert(append([]byte(nil), data...), in.URL.URL)
	default:
		want = []byte(text)
		converted = false
	}
	c.Class(how)
	c.NonTrivialIf(strings.TrimSpace(text) != "")
	for i := 0; i < 3; i++ {
		got, err := converter.Convert(data, meta)
		if string(data) != text {
			return fail("the input of the conversion was changed\nbefore:\n%s\nafter:\n%s", text, data)
		}
		if (err == nil) != (wantErr == nil) {
			return fail("%q is converted %s: error %v, want %v\n%s", in.Name, how, err, wantErr, text)
		}
		if err != nil {
			c.Class("error")
			return nil
		}
		if !bytes.Equal(got, want) {
			return fail("%q is to be %s, and its conversion differs (%d)\n%s\n---- want ----\n%s\n---- the file ----\n%s", in.Name, how, i, got, want, text)
		}
		s, err := converter.ConvertString(text, meta)
		if err != nil || s != string(want) {
			return fail("%q is to be %s, and the conversion of the text differs: %v\n%s\n---- want ----\n%s\n---- the file ----\n%s", in.Name, how, err, s, want, text)
		}
	}
	if !converted {
		return nil
	}
	// the result is in the current format.
	m, err := yaml.ParseBytes(want)
	if err != nil {
		return fail("the converted file does not parse: %v\n%s\n---- the file ----\n%s", err, want, text)
	}
	again, err := converter.Convert(want, converter.Metadata{Filename: ".drone.yml", Ref: in.Ref, URL: in.URL.URL})
	if err != nil || !bytes.Equal(again, want) {
		return fail("the converted file is converted again: %v\n%s\n---- before ----\n%s", err, again, want)
	}
	buf := new(bytes.Buffer)
	pretty.Print(buf, m)
	if !bytes.Equal(buf.Bytes(), want) {
		return fail("the converted file is not formatted\n%s\n---- formatted ----\n%s\n---- the file ----\n%s", want, buf, text)
	}
	n := 0
	for _, r := range m.Resources {
		if p, ok := r.(*yaml.Pipeline); ok {
			if compileAll(p) == nil {
				return fail("the converted pipeline does not compile\n%s", want)
			}
			n += len(p.Steps) + len(p.Services)
		}
	}
	c.ClassIf(n > 0, "converted, with steps")
	return nil
}

func init() {
	register(&Prop{ID: "C30", Title: "Conversion is chosen by the file, and is deterministic",
		Assumptions: []string{"a legacy file is one with a line that opens a top level section named pipeline; a section that is spelled another way (with quotes, or with a comment on its line) is not recognised", "circleci and travis files have no converter and are returned as they are"},
		Subs: []Sub{
			sub("choice", "files of all formats and fragments under all names, with comments and both kinds of line ends; the result is compared with the converter of its format, or with the file; it is converted three times, parsed, formatted, compiled and converted again; non-trivial: the file is not blank", 24000, 400000, genConv, checkConv).shards(8)}})
}
