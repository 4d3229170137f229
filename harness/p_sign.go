package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"strings"

	goyaml "github.com/buildkite/yaml"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/signer"
	"pgregory.net/rapid"
)

// ---- the reference ----

// linesOf splits a file the way a line reader does.
func linesOf(data []byte) []string {
	var out []string
	for len(data) > 0 {
		i := bytes.IndexByte(data, '\n')
		var l []byte
		if i < 0 {
			l, data = data, nil
		} else {
			l, data = data[:i], data[i+1:]
		}
		if n := len(l); n > 0 && l[n-1] == '\r' {
			l = l[:n-1]
		}
		out = append(out, string(l))
	}
	return out
}

// kindOf is the kind of a document.
func kindOf(doc string) (kind string, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	v := struct {
		Version, Kind, Type string
	}{}
	err := goyaml.Unmarshal([]byte(doc), &v)
	return v.Kind, err == nil
}

// signedDocs are the documents that a signature covers.
func signedDocs(data []byte) (docs []string, sigs []string, ok bool) {
	for _, d := range refSplit(linesOf(data)) {
		k, ok := kindOf(d)
		if !ok {
			return nil, nil, false
		}
		if k == "signature" {
			sigs = append(sigs, d)
		} else {
			docs = append(docs, d)
		}
	}
	return docs, sigs, true
}

func refHmac(docs []string, key string) string {
	h := hmac.New(sha256.New, []byte(key))
	for _, d := range docs {
		h.Write([]byte(d))
	}
	return hex.EncodeToString(h.Sum(nil))
}

// ---- cases ----

// SignCase is a file and a key.
type SignCase struct {
	File  FileCase `json:"file"`
	Lines []string `json:"lines,omitempty"` // instead of the file
	CRLF  bool     `json:"crlf,omitempty"`
	NoEOL bool     `json:"no_eol,omitempty"`
	Key   string   `json:"key"`
	Other string   `json:"other"`
	Old   string   `json:"old,omitempty"` // the signature that is there already
}

func genKey(t *rapid.T) string {
	if chance(t, 6) {
		return rapid.StringMatching(`[ -~]{0,31}`).Draw(t, "key")
	}
	n := pick(t, []int{32, 33, 64, 65, 100})
	k := rapid.StringOfN(rapid.RuneFrom([]rune("abcdefghijklmnopqrstuvwxyzABCDEF0123456789$%&é \n")), n, n, -1).Draw(t, "key")
	if chance(t, 4) {
		k = pick(t, []string{"", " ", "\t", "\n", "\""}) + k + pick(t, []string{" ", "\n", "\r\n", "\t", "\""})
	}
	return k
}

// genOtherKey is a key that is often almost the other one. A key
// that is followed by null bytes is the same key.
func genOtherKey(t *rapid.T, k string) string {
	switch num(t, 0, 7) {
	case 0:
		return k + pick(t, []string{" ", "\n", "a", k})
	case 1:
		return pick(t, []string{" ", "\n", "a"}) + k
	case 2:
		return strings.TrimSpace(k)
	case 3:
		return strings.ToUpper(k)
	case 4:
		if len(k) > 32 {
			return k[:len(k)-1]
		}
	}
	return genKey(t)
}

func genSign(t *rapid.T) SignCase {
	c := SignCase{Key: genKey(t), CRLF: chance(t, 6), NoEOL: chance(t, 6)}
	c.Other = genOtherKey(t, c.Key)
	if chance(t, 2) {
		c.File = FileCase{genManifest(t, optText()), genStyle(t)}
	} else {
		d := genDoc(t)
		for _, l := range d.Lines {
			if l.Pad > 1<<18 {
				l.Pad = 300
			}
			c.Lines = append(c.Lines, l.String())
		}
	}
	if c.Lines != nil && chance(t, 4) {
		// kinds that are almost a signature are pipelines.
		c.Lines = append(c.Lines, "---", "kind: "+pick(t, []string{"Signature", "SIGNATURE", "signatures", "signature1", "'signature '", "sign"}), pick(t, []string{"name: a", "hmac: abc", "x: y"}))
	}
	if chance(t, 3) {
		c.Old = pick(t, []string{"", "abc", strings.Repeat("0", 64), strings.Repeat("F", 64), "not hex", "deadbeef"})
	}
	return c
}

func (s *SignCase) bytes() []byte {
	var text string
	if s.Lines != nil {
		text = strings.Join(s.Lines, "\n") + "\n"
	} else {
		text, _ = s.File.text(nil)
	}
	if s.Old != "" {
		text = "---\nkind: signature\nhmac: " + s.Old + "\n" + "---\n" + strings.TrimPrefix(text, "---\n")
	}
	if s.NoEOL {
		text = strings.TrimSuffix(text, "\n")
	}
	if s.CRLF {
		text = strings.Replace(strings.Replace(text, "\r\n", "\n", -1), "\n", "\r\n", -1)
	}
	return []byte(text)
}

// signInvalid: a file that is no valid yaml is neither signed
// nor verified.
func signInvalid(c *C, data []byte, key signer.Key) *V {
	c.Class("not yaml")
	c.NonTrivialIf(len(key) >= 32)
	if mac, err := signer.Sign(data, key); err == nil {
		return fail("a file that is no valid yaml has the signature %s\n%s", mac, data)
	}
	if out, err := signer.SignUpdate(data, key); err == nil {
		return fail("a file that is no valid yaml is signed:\n%s\nbecomes\n%s", data, out)
	}
	if _, err := signer.WriteTo(data, strings.Repeat("0", 64)); err == nil {
		return fail("WriteTo accepts a file that is no valid yaml\n%s", data)
	}
	if ok, err := signer.Verify(data, key); ok || err == nil {
		return fail("Verify of a file that is no valid yaml: %v, %v\n%s", ok, err, data)
	}
	return nil
}

func checkSign(c *C, in SignCase) *V {
	data := in.bytes()
	orig := string(data)
	docs, _, ok := signedDocs(data)
	if !ok {
		return signInvalid(c, data, signer.KeyString(in.Key))
	}
	c.NonTrivialIf(len(docs) > 0 && len(in.Key) >= 32)
	c.ClassIf(len(docs) > 1, "several documents")
	c.ClassIf(in.Old != "", "signed before")
	c.ClassIf(len(in.Key) < 32, "short key")
	key, other := signer.KeyString(in.Key), signer.KeyString(in.Other)
	got, err := signer.Sign(data, key)
	if len(in.Key) < 32 {
		c.Class("short key")
		if err != signer.ErrInvalidKey {
			return fail("Sign with a key of %d bytes: %v", len(in.Key), err)
		}
		if out, err := signer.SignUpdate(data, key); err != signer.ErrInvalidKey || len(out) > 0 {
			return fail("SignUpdate with a key of %d bytes: %v", len(in.Key), err)
		}
		w, err := signer.WriteTo(data, strings.Repeat("0", 64))
		if err != nil {
			return fail("WriteTo: %v", err)
		}
		if ok, err := signer.Verify(w, key); ok || err != signer.ErrInvalidKey {
			return fail("Verify with a key of %d bytes: %v, %v", len(in.Key), ok, err)
		}
		return nil
	}
	if err != nil {
		return fail("Sign: %v\n%s", err, orig)
	}
	if want := refHmac(docs, in.Key); got != want {
		return fail("the signature is %s, want %s\n%s", got, want, orig)
	}
	if again, _ := signer.Sign(data, key); again != got {
		return fail("the signature is %s, then %s", got, again)
	}
	signed, err := signer.SignUpdate(data, key)
	if err != nil {
		return fail("SignUpdate: %v\n%s", err, orig)
	}
	if string(data) != orig {
		return fail("the input is changed")
	}
	ok, err = signer.Verify(signed, key)
	if !ok || err != nil {
		return fail("a signed file does not verify: %v, %v\n%s", ok, err, signed)
	}
	if in.Key != in.Other {
		if ok, err := signer.Verify(signed, other); ok || (err != nil) != (len(in.Other) < 32) {
			return fail("verifies with another key: %v, %v\n%s", ok, err, signed)
		}
	}
	docs2, sigs, ok := signedDocs(signed)
	if !ok {
		return fail("the signed file is not valid yaml\n%s", signed)
	}
	if s := same(docs2, docs); s != "" {
		return fail("signing changes the documents: %s\n%s\nthen\n%s", s, orig, signed)
	}
	if len(sigs) != 1 {
		return fail("the signed file has %d signatures\n%s", len(sigs), signed)
	}
	raw := refSplit(linesOf(signed))
	if k, _ := kindOf(raw[len(raw)-1]); k != "signature" {
		return fail("the signature is not the last document\n%s", signed)
	}
	sig := struct{ Kind, Hmac string }{}
	if err := goyaml.Unmarshal([]byte(sigs[0]), &sig); err != nil || sig.Hmac != got {
		return fail("the signature says %q, want %q (%v)", sig.Hmac, got, err)
	}
	if again, err := signer.Sign(signed, key); err != nil || again != got {
		return fail("the signature depends on the signature: %s, then %s", got, again)
	}
	twice, err := signer.SignUpdate(signed, key)
	if err != nil || !bytes.Equal(twice, signed) {
		return fail("signing twice changes the file (%v)\n%s\nthen\n%s", err, signed, twice)
	}
	written, err := signer.WriteTo(data, got)
	if err != nil || !bytes.Equal(written, signed) {
		return fail("WriteTo and SignUpdate differ (%v)\n%s\nand\n%s", err, written, signed)
	}
	// another signature is replaced.
	w2, err := signer.WriteTo(signed, strings.Repeat("ab", 32))
	if err != nil {
		return fail("WriteTo: %v", err)
	}
	if ok, err := signer.Verify(w2, key); ok || err != nil {
		return fail("a wrong signature verifies: %v, %v\n%s", ok, err, w2)
	}
	if _, sigs, ok := signedDocs(w2); !ok || len(sigs) != 1 {
		return fail("WriteTo leaves %d signatures\n%s", len(sigs), w2)
	}
	w3, err := signer.SignUpdate(w2, key)
	if err != nil || !bytes.Equal(w3, signed) {
		return fail("replacing a signature (%v) gives\n%s\nwant\n%s", err, w3, signed)
	}
	// the meaning is kept.
	m1, err1 := yaml.ParseBytes(data)
	m2, err2 := yaml.ParseBytes(signed)
	if (err1 == nil) != (err2 == nil) {
		return fail("parsed before: %v, after: %v\n%s", err1, err2, signed)
	}
	if err1 == nil {
		c.Class("manifest")
		strip := func(m *yaml.Manifest) (out []yaml.Resource) {
			for _, r := range m.Resources {
				if _, ok := r.(*yaml.Signature); !ok {
					out = append(out, r)
				}
			}
			return
		}
		if s := same(strip(m2), strip(m1)); s != "" {
			return fail("signing changes the meaning: %s\n%s", s, signed)
		}
	}
	return nil
}

// ---- tampering ----

// TamperCase is a signed file and what is done to it.
type TamperCase struct {
	Sign SignCase `json:"sign"`
	Ops  []EditM  `json:"ops"`
}

// EditM is one edit; positions are per mille of what is edited.
type EditM struct {
	Op string `json:"op"`
	A  int    `json:"a,omitempty"`
	B  int    `json:"b,omitempty"`
	S  string `json:"s,omitempty"`
}

var editOps = []string{"byte", "insert", "delete", "line", "dropline", "swapline", "dupline", "swapdoc", "dropdoc", "dupdoc", "newdoc", "movesig", "addsig", "dropsig", "sighex", "sigcut", "sigcase", "append", "after", "split", "join", "trail", "crlf", "kind"}

func genEdit(t *rapid.T) EditM {
	e := EditM{Op: pick(t, editOps), A: num(t, 0, 999), B: num(t, 0, 999)}
	switch e.Op {
	case "insert", "byte":
		e.S = pick(t, []string{"x", " ", "#", "\n", "-", ":", "é", "\t", "\r", "0"})
	case "line", "append", "after":
		e.S = pick(t, []string{"# comment", "x: y", "  - rm -rf", "", "name: evil", "kind: signature", "kind: pipeline", " ", "commands: [evil]", "privileged: true", "--", "..", "... x"})
	case "newdoc":
		e.S = pick(t, []string{"kind: pipeline\nname: evil", "kind: secret\ndata: evil", "", "# nothing", "kind: signature\nhmac: 00", "kind: signature", "kind: signature\nhmac: ''", "kind: signature\nhmac: [x]"})
	case "sighex":
		e.S = pick(t, []string{"0", "f", "a", "9"})
	}
	return e
}

func genTamper(t *rapid.T) TamperCase {
	c := TamperCase{Sign: genSign(t)}
	if len(c.Sign.Key) < 32 {
		c.Sign.Key = strings.Repeat("k", 32)
	}
	c.Ops = listOf(t, 1, 3, genEdit)
	return c
}

// apply edits the signed text.
func (e EditM) apply(text string) string {
	lines := strings.SplitAfter(text, "\n")
	if n := len(lines); lines[n-1] == "" {
		lines = lines[:n-1]
	}
	at := func(n, p int) int { return n * p / 1000 }
	// the documents, with their separators.
	var docs []string
	for _, l := range lines {
		if strings.HasPrefix(l, "---") || len(docs) == 0 {
			docs = append(docs, "")
		}
		docs[len(docs)-1] += l
	}
	sig := -1
	for i, d := range docs {
		if strings.Contains(d, "kind: signature\nhmac: ") {
			sig = i
		}
	}
	join := func(xs []string) string { return strings.Join(xs, "") }
	i, j := at(len(docs), e.A), at(len(docs), e.B)
	k, m := at(len(lines), e.A), at(len(lines), e.B)
	if len(docs) == 0 || len(lines) == 0 {
		return text
	}
	switch e.Op {
	case "byte":
		p := at(len(text), e.A)
		return text[:p] + e.S + text[p+1:]
	case "insert":
		p := at(len(text)+1, e.A)
		return text[:p] + e.S + text[p:]
	case "delete":
		p := at(len(text), e.A)
		return text[:p] + text[p+1:]
	case "line":
		lines[k] = e.S + "\n" + lines[k]
		return join(lines)
	case "dropline":
		return join(append(append([]string{}, lines[:k]...), lines[k+1:]...))
	case "dupline":
		lines[k] += lines[k]
		return join(lines)
	case "swapline":
		lines[k], lines[m] = lines[m], lines[k]
		return join(lines)
	case "swapdoc":
		docs[i], docs[j] = docs[j], docs[i]
		return join(docs)
	case "dropdoc":
		if i == sig {
			return text
		}
		return join(append(append([]string{}, docs[:i]...), docs[i+1:]...))
	case "dupdoc":
		docs[i] += docs[j]
		return join(docs)
	case "newdoc":
		docs[i] = "---\n" + e.S + "\n" + docs[i]
		return join(docs)
	case "append":
		return text + e.S + "\n"
	case "after":
		return strings.Replace(text, "...\n", "", -1) + "---\n" + e.S + "\n"
	case "split":
		lines[k] = "---\n" + lines[k]
		return join(lines)
	case "join":
		if strings.HasPrefix(lines[k], "---") {
			lines[k] = ""
		}
		return join(lines)
	case "trail":
		return strings.Replace(text, lines[k], strings.TrimSuffix(lines[k], "\n")+" \n", 1)
	case "crlf":
		return strings.Replace(text, "\n", "\r\n", -1)
	case "kind":
		return strings.Replace(text, "kind: ", "kind: "+[]string{"x", "signature\nx: ", "'signature' #"}[e.B%3], 1)
	}
	if sig < 0 {
		return text
	}
	// the signature.
	h := strings.Index(docs[sig], "kind: signature\nhmac: ") + len("kind: signature\nhmac: ")
	end := len(docs[sig])
	if n := strings.IndexByte(docs[sig][h:], '\n'); n >= 0 {
		end = h + n
	}
	val := docs[sig][h:end]
	switch e.Op {
	case "movesig":
		d := docs[sig]
		docs = append(append([]string{}, docs[:sig]...), docs[sig+1:]...)
		p := at(len(docs)+1, e.A)
		docs = append(append(append([]string{}, docs[:p]...), strings.Replace(d, "...\n", "", -1)), docs[p:]...)
		return join(docs)
	case "addsig":
		docs[sig] = "---\nkind: signature\nhmac: " + strings.Repeat("0", 64) + "\n" + docs[sig]
		return join(docs)
	case "dropsig":
		return join(append(append([]string{}, docs[:sig]...), docs[sig+1:]...))
	case "sighex":
		if val == "" {
			return text
		}
		p := at(len(val), e.A)
		val = val[:p] + e.S + val[p+1:]
	case "sigcut":
		val = val[:at(len(val), e.A)]
	case "sigcase":
		val = strings.ToUpper(val)
	}
	docs[sig] = docs[sig][:h] + val + docs[sig][end:]
	return join(docs)
}

func checkTamper(c *C, in TamperCase) *V {
	data := in.Sign.bytes()
	if _, _, ok := signedDocs(data); !ok {
		return c.Discard("invalid yaml")
	}
	key := signer.KeyString(in.Sign.Key)
	signed, err := signer.SignUpdate(data, key)
	if err != nil {
		return fail("SignUpdate: %v", err)
	}
	before, _, _ := signedDocs(signed)
	text := string(signed)
	for _, e := range in.Ops {
		text = e.apply(text)
	}
	ok, err := signer.Verify([]byte(text), key)
	after, sigs, valid := signedDocs([]byte(text))
	changed := text != string(signed)
	c.NonTrivialIf(changed && valid)
	for _, e := range in.Ops {
		c.Class("edit " + e.Op)
	}
	if !valid {
		c.Class("no longer yaml")
		if ok || err == nil {
			return fail("a file that is no valid yaml verifies: %v, %v\n%s", ok, err, text)
		}
		return nil
	}
	if err != nil {
		return fail("Verify: %v\n%s", err, text)
	}
	// the first signature counts.
	mac, decodes := "", false
	if len(sigs) > 0 {
		sig := struct{ Hmac string }{}
		if func() (err error) {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("%v", r)
				}
			}()
			return goyaml.Unmarshal([]byte(sigs[0]), &sig)
		}() == nil {
			if b, err := hex.DecodeString(sig.Hmac); err == nil {
				mac, decodes = hex.EncodeToString(b), true
			}
		}
	}
	good := decodes && mac == refHmac(before, in.Sign.Key)
	intact := same(after, before) == ""
	c.ClassIf(!intact, "documents changed")
	c.ClassIf(!good, "signature changed")
	c.ClassIf(intact && good, "still valid")
	switch {
	case ok && !good:
		return fail("verifies with the signature %q, the signature of the file is %q\n%s", mac, refHmac(before, in.Sign.Key), text)
	case ok && !intact:
		if strings.Join(after, "") == strings.Join(before, "") {
			return failKey("separator-only", "the documents differ and the file verifies: only the separators changed\n%s\nthen\n%s", signed, text)
		}
		return fail("the documents differ and the file verifies\n%s\nthen\n%s", signed, text)
	case !ok && good && intact:
		return fail("the documents and the signature are intact, and the file does not verify\n%s\nthen\n%s", signed, text)
	}
	return nil
}

func init() {
	register(&Prop{ID: "C09", Title: "what is signed verifies, and signing changes nothing else",
		Subs: []Sub{
			sub("sign", "files of one or several documents with and without earlier signatures, CRLF or not, with keys of any length; the reference computes the HMAC of the documents; non-trivial: a valid key and at least one document", 16000, 160000, genSign, checkSign).shards(8),
		}})
	register(&Prop{ID: "C10", Title: "a file that was changed after it was signed does not verify",
		Subs: []Sub{
			sub("tamper", "signed files with one to three edits of bytes, lines, documents or the signature; the reference compares the documents; non-trivial: the edited file differs and is valid yaml", 40000, 640000, genTamper, checkTamper).shards(8),
		}})
}
