// rxref answers regexp questions with Go's own engine: the reference against
// which specs/Rx.tla is checked.
package main

import (
	"encoding/json"
	"os"
	"regexp"
)

type Q struct{ Pat, S, To string }
type A struct {
	Matched bool   `json:"matched"`
	Want    string `json:"want"`
	Err     string `json:"err"`
}

func main() {
	var qs []Q
	json.NewDecoder(os.Stdin).Decode(&qs)
	out := make([]A, len(qs))
	for i, q := range qs {
		rx, err := regexp.Compile(q.Pat)
		if err != nil {
			out[i].Err = err.Error()
			continue
		}
		out[i] = A{rx.MatchString(q.S), rx.ReplaceAllString(q.S, q.To), ""}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
