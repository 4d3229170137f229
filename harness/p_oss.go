package main

import (
	"bytes"
	"encoding/json"
	"io"
	"os/exec"

	"github.com/drone/drone-yaml/yaml/converter"
)

// ---- C34: the open source build ----

// ossProc is a running program that is built with the tag oss.
type ossProc struct {
	in  io.Writer
	out *json.Decoder
}

var oss *ossProc

func checkOSSConvert(c *C, in ConvCase) *V {
	if c.cli == "" {
		panic("harness: the program is not built")
	}
	if oss == nil {
		cmd := exec.Command(c.cli + "-lib")
		w, err := cmd.StdinPipe()
		if err == nil {
			var r io.Reader
			r, err = cmd.StdoutPipe()
			oss = &ossProc{w, json.NewDecoder(r)}
		}
		if err == nil {
			err = cmd.Start()
		}
		if err != nil {
			oss = nil
			panic("harness: " + err.Error())
		}
	}
	text := in.text()
	data := []byte(text)
	meta := converter.Metadata{Filename: in.Name, Ref: in.Ref, URL: in.URL.URL}
	full, err := converter.Convert(append([]byte(nil), data...), meta)
	c.Class(in.Format)
	c.NonTrivialIf(err != nil || string(full) != text)
	q, _ := json.Marshal(map[string]interface{}{"Data": data, "Meta": meta})
	oss.in.Write(append(q, '\n'))
	var got struct {
		Bytes, Text, Input []byte
		OK                 bool
	}
	if err := oss.out.Decode(&got); err != nil {
		oss = nil
		return fail("the open source build dies: %v\n%s", err, text)
	}
	if !got.OK {
		return fail("the open source build returns an error for %q\n%s", in.Name, text)
	}
	if !bytes.Equal(got.Input, data) {
		return fail("the open source build changes the file in place\n%s\n---- before ----\n%s", got.Input, text)
	}
	if !bytes.Equal(got.Bytes, data) {
		return fail("the open source build converts %q\n%s\n---- the file ----\n%s", in.Name, got.Bytes, text)
	}
	if string(got.Text) != text {
		return fail("the open source build converts the text of %q\n%s\n---- the file ----\n%s", in.Name, got.Text, text)
	}
	return nil
}

func checkOSSCLI(c *C, in CLICase) *V {
	c.oss = true
	return checkCLI(c, in)
}

func init() {
	register(&Prop{ID: "C34", Title: "The open source build converts nothing and is the same otherwise",
		Assumptions: []string{"the open source build is the one with the tag oss, as the files of the converter state"},
		Subs: []Sub{
			sub("convert", "files of all formats under all names, given to a program that is built with the tag oss; non-trivial: the usual build converts the file, or rejects it", 16000, 400000, genConv, checkOSSConvert).cli().shards(4),
			sub("command", "directories and histories of commands as in C31; the command is built with the tag oss and is to do what the library does, but for the conversion; non-trivial: a command succeeds on a file that is not empty", 1200, 30000, genCLI, checkOSSCLI).cli().shards(8)}})
}
