package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"strconv"
	"strings"

	goyaml "github.com/buildkite/yaml"
	"github.com/drone/drone-yaml/yaml"
	img "github.com/drone/drone-yaml/yaml/compiler/image"
	"pgregory.net/rapid"
)

// ---- C21: image names ----

// genRefText draws an image reference, or something like it.
func genRefText(t *rapid.T) string {
	var s string
	switch num(t, 0, 9) {
	case 0:
		s = rapid.StringMatching(`([a-zA-Z0-9.-]{1,8}(:[0-9]{1,4})?/)?[a-zA-Z0-9._/-]{1,12}(:[a-zA-Z0-9_.-]{1,8})?(@[a-z0-9+.]{1,7}:[0-9a-f]{30,66})?`).Draw(t, "ref")
	case 1:
		s = pick(t, []string{"", "sha256:", "sha512:", "a/"}) + pick(t, badImages)
	case 2:
		s = pick(t, []string{"docker.io", "index.docker.io", "localhost", "a.b", "a:1", "a", "1.2.3.4:8000", "DOCKER.io", "library", "[::1]:80"}) +
			pick(t, []string{"/", "/library/", "", ":", "/a/", "//"}) + pick(t, imageNames)
	case 3:
		s = pick(t, imageNames) + ":" + pick(t, []string{strings.Repeat("a", 127), strings.Repeat("b", 128), strings.Repeat("c", 129), "-a", ".a", "_a", "a:b", "A", "", "a/b", "é"})
	case 4:
		s = strings.Repeat(pick(t, words[:8])+"/", num(t, 0, 60)) + strings.Repeat("x", num(t, 1, 40))
	case 5:
		s = pick(t, imageNames) + pick(t, imageTags) + "@" + pick(t, []string{"sha256", "sha512", "sha384", "md5", "a+b", "SHA256"}) + ":" + strings.Repeat(pick(t, []string{"a", "0", "F"}), pick(t, []int{31, 32, 63, 64, 65, 96, 128}))
	default:
		s = goodImage(t)
	}
	for chance(t, 4) && s != "" {
		i := num(t, 0, len(s)-1)
		x := pick(t, []string{"/", ":", "@", ".", "-", "_", "A", "a", "0", " ", "\n", "library/", "docker.io/", "%", "é", "__", ""})
		switch num(t, 0, 2) {
		case 0:
			s = s[:i] + x + s[i:]
		case 1:
			s = s[:i] + x + s[i+1:]
		case 2:
			s = s[:i] + s[i+1:]
		}
	}
	return cleanText(s)
}

// RefPair are references to compare.
type RefText struct {
	A    string   `json:"a"`
	List []string `json:"list,omitempty"`
	Host string   `json:"host,omitempty"`
}

func genRefs(t *rapid.T) RefText {
	c := RefText{A: genRefText(t)}
	c.List = listOf(t, 0, 3, func(t *rapid.T) string {
		if chance(t, 2) {
			return respell(t, c.A)
		}
		return genRefText(t)
	})
	c.Host = pick(t, []string{"docker.io", "index.docker.io", "gcr.io", "localhost:5000", "localhost", "quay.io", "", "Docker.io", "registry.example.com:443", "registry.example.com", "library", "a", "a:1"})
	if r, ok := parseRef(c.A); ok && chance(t, 2) {
		c.Host = r.domain
	}
	return c
}

func checkRefTexts(c *C, in RefText) *V {
	for _, s := range append([]string{in.A}, in.List...) {
		r, ok := parseRef(s)
		if ok && r.digest != "" && !knownDigest(r.digest) {
			return c.Discard("digest of an unusual algorithm")
		}
		if !ok && r.domain != "" && !reDomain.MatchString(r.domain) {
			// docker takes d_cker.io/golang as a path without
			// registry.
			return c.Discard("invalid host name")
		}
	}
	r, ok := parseRef(in.A)
	c.NonTrivialIf(ok)
	c.ClassIf(!ok, "no reference")
	c.ClassIf(r.digest != "", "digest")
	c.ClassIf(r.domain != "" && r.domain != "docker.io", "other registry")
	if got, want := img.Trim(in.A), refTrim(in.A); got != want {
		return fail("Trim(%q) = %q, want %q", in.A, got, want)
	}
	if got, want := img.Expand(in.A), refExpand(in.A); got != want {
		return fail("Expand(%q) = %q, want %q", in.A, got, want)
	}
	// a full name is the full name of itself.
	if a := img.Expand(in.A); img.Expand(a) != a {
		return fail("%q becomes %q, and then %q", in.A, a, img.Expand(a))
	}
	any := false
	for _, b := range in.List {
		same := refTrim(in.A) == refTrim(b)
		any = any || same
		if got := img.Match(in.A, b); got != same {
			return fail("Match(%q, %q) = %v", in.A, b, got)
		}
		if got := img.Match(b, in.A); got != same {
			return fail("Match(%q, %q) = %v", b, in.A, got)
		}
		tag := refExpand(in.A) == refExpand(b)
		if got := img.MatchTag(in.A, b); got != tag {
			return fail("MatchTag(%q, %q) = %v", in.A, b, got)
		}
		c.ClassIf(same, "same image")
		c.ClassIf(same && !tag, "same image, other tag")
	}
	if got := img.Match(in.A, in.List...); got != any {
		return fail("Match(%q, %q) = %v", in.A, in.List, got)
	}
	host := in.Host
	if host == "index.docker.io" {
		host = "docker.io"
	}
	if got, want := img.MatchHostname(in.A, in.Host), ok && r.domain == host; got != want {
		return fail("MatchHostname(%q, %q) = %v", in.A, in.Host, got)
	}
	return nil
}

// aloneProc is a running program that uses the names of images
// and nothing else of drone-yaml. What other packages of the
// process do (registered hashes, for one) must not matter.
type aloneProc struct {
	in  io.Writer
	out *json.Decoder
}

var alone *aloneProc

func checkAlone(c *C, in RefText) *V {
	if c.cli == "" {
		panic("harness: the program is not built")
	}
	if v := checkRefTexts(c, in); v != nil || c.skipped != "" {
		return v
	}
	if alone == nil {
		cmd := exec.Command(c.cli)
		w, err := cmd.StdinPipe()
		if err == nil {
			var r io.Reader
			r, err = cmd.StdoutPipe()
			alone = &aloneProc{w, json.NewDecoder(r)}
		}
		if err == nil {
			err = cmd.Start()
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	list := in.List
	if len(list) == 0 {
		list = []string{in.Host}
	}
	for _, b := range list {
		if b == in.Host {
			b = ""
		}
		q, _ := json.Marshal(map[string][]byte{"A": []byte(in.A), "B": []byte(b)})
		alone.in.Write(append(q, '\n'))
		var got struct {
			Trim, Expand     []byte
			Match, Tag, Host bool
		}
		if err := alone.out.Decode(&got); err != nil {
			alone = nil
			return fail("a program that uses the images alone dies: %v", err)
		}
		for _, x := range []struct {
			name      string
			got, want interface{}
		}{{"Trim", string(got.Trim), img.Trim(in.A)}, {"Expand", string(got.Expand), img.Expand(in.A)}, {"Match", got.Match, img.Match(in.A, b)},
			{"MatchTag", got.Tag, img.MatchTag(in.A, b)}, {"MatchHostname", got.Host, img.MatchHostname(in.A, b)}} {
			if x.got != x.want {
				return fail("a program that uses no other package gets %s(%q, %q) = %v, want %v", x.name, in.A, b, x.got, x.want)
			}
		}
	}
	return nil
}

// knownDigest says that the digest is one that docker computes.
func knownDigest(s string) bool {
	i := strings.Index(s, ":")
	n := map[string]int{"sha256": 64}[s[:i]]
	return len(s)-i-1 == n && strings.ToLower(s[i:]) == s[i:]
}

// ---- C32: sizes ----

// SizeText is the text of a size.
type SizeText struct {
	Text  string `json:"text"`
	Plain bool   `json:"plain,omitempty"` // a bare number
}

func genSizeText(t *rapid.T) SizeText {
	unit := func() string {
		return pick(t, []string{"", "", " "}) + pick(t, []string{"", "k", "K", "m", "M", "g", "G", "t", "T", "p", "P", "e", "x"}) + pick(t, []string{"", "", "i", "I"}) + pick(t, []string{"", "b", "B", "s"})
	}
	var s SizeText
	switch num(t, 0, 7) {
	case 0, 1:
		s.Plain = true
		s.Text = fmt.Sprint(genSize(t))
		if chance(t, 5) {
			s.Text = pick(t, []string{"-1", "-1024", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999", "4294967296", "2147483648"})
		}
	case 2, 3, 4:
		s.Text = fmt.Sprint(num(t, 0, 5000)) + unit()
	case 5:
		s.Text = fmt.Sprintf("%d.%d", num(t, 0, 5000), num(t, 0, 9999)) + unit()
	case 6:
		s.Text = rapid.StringMatching(`[0-9.]{1,24} ?[kKmMgGtTpP]?[iI]?[bB]?`).Draw(t, "size")
	default:
		s.Text = genSizeText2(t)
	}
	return s
}

func genSizeText2(t *rapid.T) string {
	s := pick(t, []string{"10MiB", "1GiB", "512k", "1.5g", "100", "2 TB"})
	i := num(t, 0, len(s)-1)
	x := pick(t, []string{" ", "-", "+", ".", "e", "_", ",", "0", "x", "\n", "é", "٣", "i", "b", "k"})
	if chance(t, 2) {
		return s[:i] + x + s[i:]
	}
	return s[:i] + x + s[i+1:]
}

// refSize reads a size. Sizes that are too large are no sizes.
func refSize(s string) (n *big.Int, ok bool) {
	digits := func() string {
		i := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		d := s[:i]
		s = s[i:]
		return d
	}
	text := digits()
	if text == "" {
		return nil, false
	}
	if strings.HasPrefix(s, ".") {
		s = s[1:]
		frac := digits()
		if frac == "" {
			return nil, false
		}
		text += "." + frac
	}
	s = strings.TrimPrefix(s, " ")
	shift := uint(0)
	s = strings.ToLower(s)
	if s != "" {
		if i := strings.IndexByte("kmgtp", s[0]); i >= 0 {
			shift = 10 * uint(i+1)
			s = s[1:]
		}
	}
	s = strings.TrimPrefix(s, "i")
	s = strings.TrimPrefix(s, "b")
	if s != "" {
		return nil, false
	}
	r, good := new(big.Rat).SetString(text)
	if !good {
		return nil, false
	}
	r.Mul(r, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), shift)))
	n = new(big.Int).Quo(r.Num(), r.Denom())
	return n, true
}

func readSize(doc string) (int64, error) {
	var out struct {
		Size yaml.BytesSize
	}
	err := goyaml.Unmarshal([]byte(doc), &out)
	return int64(out.Size), err
}

func checkReadSize(c *C, in SizeText) *V {
	doc := "size: " + in.Text + "\n"
	if !in.Plain {
		doc = "size: " + strconv.Quote(in.Text) + "\n"
		for _, r := range in.Text {
			if r > 0x7e {
				doc = "size: '" + in.Text + "'\n"
			}
		}
	}
	var want *big.Int
	ok := true
	if in.Plain {
		want, ok = new(big.Int).SetString(in.Text, 10)
	} else {
		want, ok = refSize(in.Text)
	}
	if ok && !want.IsInt64() {
		ok = false
		c.Class("too large")
	}
	c.NonTrivialIf(ok)
	c.ClassIf(!ok, "no size")
	got, err := readSize(doc)
	switch {
	case ok && err != nil:
		return fail("%q is rejected: %v", in.Text, err)
	case !ok && err == nil:
		return fail("%q is read as %d", in.Text, got)
	case !ok:
		return nil
	}
	// fractions are read as float64: those with few binary digits
	// are exact.
	exact := in.Plain || want.BitLen() <= 53 && (!strings.Contains(in.Text, ".") || want.BitLen() <= 32 && len(in.Text) < 16)
	if exact && got != want.Int64() {
		return fail("%q is read as %d, want %v", in.Text, got, want)
	}
	if !exact {
		// the number has more digits than a float64 has.
		d := new(big.Int).Sub(big.NewInt(got), want)
		if d.Abs(d).Cmp(new(big.Int).Add(new(big.Int).Rsh(want, 48), big.NewInt(1))) > 0 {
			return fail("%q is read as %d, want %v", in.Text, got, want)
		}
	}
	return nil
}

func genAnySize(t *rapid.T) int64 {
	switch num(t, 0, 5) {
	case 0:
		return rapid.Int64().Draw(t, "n")
	case 1:
		return rapid.Int64Range(0, 1<<53).Draw(t, "n")
	case 2:
		return int64(num(t, 1, 1023))<<uint(10*num(t, 0, 5)) + int64(num(t, -2, 2))
	case 3:
		return int64(num(t, 1, 99999)) << uint(10*num(t, 0, 4)) / int64(pick(t, []int{1, 2, 4, 8, 10, 100, 1000}))
	default:
		return genSize(t)
	}
}

func checkWriteSize(c *C, n int64) *V {
	s := yaml.BytesSize(n).String()
	c.NonTrivialIf(n > 1024)
	c.ClassIf(strings.HasSuffix(s, "B"), "human readable")
	for _, doc := range []string{"size: " + s + "\n", "size: '" + s + "'\n"} {
		if strings.Contains(doc, "'") && (n < 0 || n > 1<<53) {
			// a negative number is no size; numbers in quotes
			// are read as float64.
			continue
		}
		got, err := readSize(doc)
		if err != nil {
			return fail("%d is written as %q, which is rejected: %v", n, s, err)
		}
		if got != n {
			return fail("%d is written as %q, which is read as %d", n, s, got)
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C21", Title: "image names are compared as docker reads them",
		Subs: []Sub{
			sub("references", "image references in many spellings, mutated references and text; trim, expand, match, match with tag and match of the host name are compared with a reference parser; non-trivial: a valid reference", 60000, 3000000, genRefs, checkRefTexts).shards(8),
			sub("alone", "the same in a program that uses nothing else of drone-yaml; non-trivial: a valid reference", 20000, 600000, genRefs, checkAlone).cli().shards(4),
		}})
	register(&Prop{ID: "C32", Title: "byte sizes are read and written exactly",
		Subs: []Sub{
			sub("read", "numbers, numbers with units, fractions, overflowing numbers and malformed text; non-trivial: a size", 40000, 1000000, genSizeText, checkReadSize).shards(4),
			sub("write", "sizes of all magnitudes are written and read again; non-trivial: above 1024", 40000, 1000000, genAnySize, checkWriteSize).shards(4),
		}})
}
