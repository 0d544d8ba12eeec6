// The runner runs checks, their workers, and replays.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"

	"verif/harness/eng"
	"verif/harness/fresh"
	_ "verif/harness/props"
	"verif/harness/tgt"
)

func main() {
	tgt.Fresh = fresh.Types
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		eng.Root = r
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: runner check ID TIER | replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
		if err != nil {
			seed = 1
		}
		scale := 1.0
		if s, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil {
			scale = s
		}
		os.Exit(eng.Check(os.Args[2], os.Args[3], seed, scale))
	case "worker":
		sh := new(eng.Shard)
		if err := json.Unmarshal([]byte(os.Args[2]), sh); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Exit(eng.Worker(sh))
	case "one":
		b, err := os.ReadFile(os.Args[2])
		f := new(eng.Failure)
		if err == nil {
			err = json.Unmarshal(b, f)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(13)
		}
		limit, _ := strconv.ParseFloat(os.Args[4], 64)
		os.Exit(eng.One(f, os.Args[3], limit))
	case "replay":
		os.Exit(eng.Replay(os.Args[2]))
	case "list":
		for _, id := range eng.IDs() {
			fmt.Println(id)
		}
	}
}
