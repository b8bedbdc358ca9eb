// Command run prints the outcome of every conformance program as the real
// runtime produces it, several times over.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"

	"conform"
)

func main() {
	out := map[string][]string{}
	for i := 0; i < 5; i++ {
		for _, p := range conform.Programs {
			r := p.Run()
			seen := false
			for _, s := range out[p.Name] {
				seen = seen || s == r
			}
			if !seen {
				out[p.Name] = append(out[p.Name], r)
			}
		}
	}
	for _, v := range out {
		sort.Strings(v)
	}
	if err := json.NewEncoder(os.Stdout).Encode(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
