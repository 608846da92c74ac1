// Command harness runs the checks: harness check <ID> | harness replay <file>.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"

	"verif/harness/internal/core"
	"verif/harness/internal/prog"
	"verif/harness/internal/props"
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	code := 3
	func() {
		defer func() {
			if x := recover(); x != nil {
				if inf, ok := x.(core.Infra); ok {
					fmt.Fprintln(os.Stderr, "harness error:", inf.Msg)
				} else {
					fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", x, debug.Stack())
				}
				code = 3
			}
		}()
		code = run()
	}()
	os.Exit(code)
}

func run() int {
	if len(os.Args) == 2 && os.Args[1] == "worker" {
		return prog.Worker()
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: harness check ID | replay FILE")
		return 2
	}
	seed, err := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		core.Infraf("VERIF_SEED: %v", err)
	}
	scratch := os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		core.Infraf("VERIF_SCRATCH not set")
	}
	verif, repo := env("VERIF_DIR", "/verif"), env("VERIF_REPO", "/repo")
	switch os.Args[1] {
	case "show": // the program of a replay file
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			core.Infraf("%v", err)
		}
		var f core.ReplayFile
		if err := json.Unmarshal(b, &f); err != nil {
			core.Infraf("%v", err)
		}
		var c struct {
			prog.Program
			P *prog.Program
		}
		if err := json.Unmarshal(f.Case, &c); err != nil {
			core.Infraf("%v", err)
		}
		p := c.Program
		if c.P != nil {
			p = *c.P
		}
		rd := p.Render(false, "")
		for name, src := range rd.Files {
			fmt.Printf("==> %s\n%s\n", name, src)
		}
		fmt.Println(f.Error)
		return 0
	case "check":
		id := os.Args[2]
		p, ok := props.All[id]
		if !ok {
			core.Infraf("unknown property %q", id)
		}
		r := core.NewRun(id, env("VERIF_TIER", "quick"), seed, scratch, verif, repo)
		subs := p(r)
		return core.Execute(r, subs)
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			core.Infraf("%v", err)
		}
		var f core.ReplayFile
		if err := json.Unmarshal(b, &f); err != nil {
			core.Infraf("%v", err)
		}
		p, ok := props.All[f.Property]
		if !ok {
			core.Infraf("unknown property %q", f.Property)
		}
		r := core.NewRun(f.Property, "quick", seed, scratch, verif, repo)
		sub := core.FindSub(p(r), f.Sub)
		if sub == nil {
			core.Infraf("unknown sub %q", f.Sub)
		}
		if err := sub.ReplaySub(r, f.Case); err != nil {
			fmt.Println(err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, os.Args[2])
			return 1
		}
		fmt.Println("holds")
		return 0
	}
	return 2
}
