// Command alone is a program that uses nothing of drone-yaml but
// the names of images, as a caller may. It answers each line with
// what the functions give.
package main

import (
	"bufio"
	"encoding/json"
	"os"

	"github.com/drone/drone-yaml/yaml/compiler/image"
)

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q struct{ A, B []byte }
		if err := json.Unmarshal(line, &q); err != nil {
			os.Exit(3)
		}
		a, b := string(q.A), string(q.B)
		out.Encode(map[string]interface{}{
			"trim":   []byte(image.Trim(a)),
			"expand": []byte(image.Expand(a)),
			"match":  image.Match(a, b),
			"tag":    image.MatchTag(a, b),
			"host":   image.MatchHostname(a, b),
		})
	}
}
