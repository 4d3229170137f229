// Command oss is built with the tag oss. It answers each line, a
// file and what is known of it, with what the conversions give.
package main

import (
	"bufio"
	"encoding/json"
	"os"

	"github.com/drone/drone-yaml/yaml/converter"
)

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q struct {
			Data []byte
			Meta converter.Metadata
		}
		if err := json.Unmarshal(line, &q); err != nil {
			os.Exit(3)
		}
		data := append([]byte(nil), q.Data...)
		b, err := converter.Convert(data, q.Meta)
		s, errs := converter.ConvertString(string(q.Data), q.Meta)
		out.Encode(map[string]interface{}{
			"bytes": b,
			"text":  []byte(s),
			"input": data,
			"ok":    err == nil && errs == nil,
		})
	}
}
