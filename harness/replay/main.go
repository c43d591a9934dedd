// Command replay runs harnesses natively against the real code.
// Input: JSON lines {"harness","inputs","thorough"}; output: one JSON line each.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"verif/harness/h"
	"verif/harness/sym"
)

type req struct {
	Harness  string            `json:"harness"`
	Inputs   map[string]uint64 `json:"inputs"`
	Thorough bool              `json:"thorough"`
	Repeat   bool              `json:"repeat"` // look at several schedules and map orders
}

type res struct {
	End     string   `json:"end"`
	Obs     []string `json:"obs"`
	Failed  []string `json:"failed"`
	Reached []string `json:"reached"`
}

func main() {
	debug.SetMaxStack(64 << 20)
	sc := bufio.NewScanner(os.Stdin)
	if len(os.Args) > 1 {
		f, err := os.Open(os.Args[1])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		sc = bufio.NewScanner(f)
	}
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	out := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		var r req
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		f := h.All[r.Harness]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no harness", r.Harness)
			os.Exit(2)
		}
		sym.Reset(r.Inputs, r.Thorough)
		end := sym.Run(f)
		for t0 := time.Now(); end == "done" && r.Repeat && sym.Varies() && time.Since(t0) < 3*time.Second; {
			sym.Reset(r.Inputs, r.Thorough)
			end = sym.Run(f)
		}
		b, _ := json.Marshal(res{end, sym.Obs, sym.Failed, sym.Reached})
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
