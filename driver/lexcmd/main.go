// lexcmd LITERALS OUT: writes the table of lexical facts.
package main

import (
	"encoding/json"
	"os"

	"corp/facts"
)

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var l facts.Literals
	if err := json.Unmarshal(b, &l); err != nil {
		panic(err)
	}
	out, err := json.Marshal(facts.Table(l))
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(os.Args[2], out, 0o644); err != nil {
		panic(err)
	}
}
