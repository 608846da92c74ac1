package props

import (
	"fmt"
	"sync"

	"verif/harness/internal/core"
	"verif/harness/internal/prog"
)

var (
	envOnce sync.Once
	theEnv  *prog.Env
)

func env(r *core.Run) *prog.Env {
	envOnce.Do(func() { theEnv = prog.NewEnv(r) })
	return theEnv
}

// compareProp generates programs and compares their documents with the model.
func compareProp(name string, gen prog.Gen, cmp prog.Cmp, quick, thorough int, nonTrivial func(prog.Program) bool) core.ParProp[prog.Program] {
	return core.ParProp[prog.Program]{
		Name: name, Gen: gen.Draw(), Quick: quick, Thorough: thorough, NonTrivial: nonTrivial, Shrink: prog.Shrink,
		Classify: classify,
		Oracle: func(r *core.Run, p prog.Program) error {
			return env(r).Generate(&p, nil, func(o prog.Outcome) error {
				if o.Err != nil {
					return o.Err
				}
				return prog.NewCtx(&p).CompareDoc(o.Doc, cmp)
			})
		},
	}
}

// classify names what a program contains.
func classify(p prog.Program) []string {
	set := map[string]bool{}
	for _, f := range p.Funcs {
		set["func:"+f.Kind] = true
		prog.WalkStmts(f.Body, func(s *prog.Stmt) {
			set[s.K+":"+s.M] = true
			if s.St != nil {
				set["int form:"+s.St.Form] = true
			}
			if s.Str != nil {
				set["string form:"+s.Str.Form] = true
			}
			if s.Val != nil {
				set["value form:"+s.Val.Form] = true
			}
		})
	}
	for _, d := range p.Types {
		k := d.T.K
		if d.Alias {
			k = "alias"
		}
		set["type:"+k] = true
	}
	set[fmt.Sprintf("packages:%d", len(p.Pkgs))] = true
	var out []string
	for k := range set {
		out = append(out, k)
	}
	return out
}

// reach are the statements of all handlers and the helpers they call.
func countStmts(p prog.Program, kind string) int {
	n := 0
	for _, r := range p.Routes {
		seen := map[int]bool{}
		var add func(fn int)
		add = func(fn int) {
			if seen[fn] {
				return
			}
			seen[fn] = true
			prog.WalkStmts(p.Funcs[fn].Body, func(s *prog.Stmt) {
				if s.K == kind {
					n++
				}
				if s.K == "call" {
					add(s.Fn)
				}
			})
		}
		add(r.Fn)
	}
	return n
}
