package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/internal/core"
	"verif/harness/internal/prog"
)

// rwCase is a program and the same program written differently.
type rwCase struct {
	P   prog.Program
	Rws []prog.Rw
}

func drawRws(t *rapid.T, n int) []prog.Rw {
	var out []prog.Rw
	for i := rapid.IntRange(1, n).Draw(t, "rws"); i > 0; i-- {
		out = append(out, prog.Rw{K: rapid.SampledFrom(prog.RwKinds).Draw(t, "rw"),
			A: rapid.IntRange(0, 60).Draw(t, "a"), B: rapid.IntRange(0, 60).Draw(t, "b"), C: rapid.IntRange(0, 60).Draw(t, "c")})
	}
	return out
}

func (c rwCase) run(r *core.Run) error {
	var a map[string]any
	if err := env(r).Generate(&c.P, nil, func(o prog.Outcome) error { a = o.Doc; return o.Err }); err != nil {
		return fmt.Errorf("as first written: %w", err)
	}
	q, kinds := prog.Rewrite(c.P, c.Rws)
	return env(r).Generate(&q, nil, func(o prog.Outcome) error {
		if o.Err != nil {
			return fmt.Errorf("rewritten: %w", o.Err)
		}
		b := o.Doc
		for _, rt := range c.P.Routes {
			if kinds[rt.Fn] { // an inline handler has no name and doc comment
				for _, d := range []map[string]any{a, b} {
					if op, ok := dig(d, "paths", prog.OpenAPIPath(rt.Path), strings.ToLower(rt.Method)).(map[string]any); ok {
						delete(op, "operationId")
						delete(op, "description")
					}
				}
			}
		}
		if d := firstDiff("", a, b); d != "" {
			dumpPair(r, &c.P, &q)
			return fmt.Errorf("the document changes when the program is rewritten (left: before, right: after): %s", d)
		}
		return prog.NewCtx(&q).CompareDoc(o.Doc, prog.Cmp{Responses: true, Requests: true, RespHeaders: true, Paths: true})
	})
}

// dumpPair shows both programs of a failing case.
func dumpPair(r *core.Run, p, q *prog.Program) {
	if os.Getenv("VERIF_PAIR") == "" {
		return
	}
	for d, x := range map[string]*prog.Program{"before": p, "after": q} {
		_ = x.Render(false, "").Write(filepath.Join(os.Getenv("VERIF_PAIR"), d), "module x\n", "")
	}
}

func shrinkRw(c rwCase, fails func(rwCase) bool) rwCase {
	for i := len(c.Rws) - 1; i >= 0; i-- {
		d := rwCase{P: c.P, Rws: append(append([]prog.Rw{}, c.Rws[:i]...), c.Rws[i+1:]...)}
		if fails(d) {
			c = d
		}
	}
	c.P = prog.Shrink(c.P, func(p prog.Program) bool { return fails(rwCase{P: p, Rws: c.Rws}) })
	return c
}

func init() {
	register("C05", func(r *core.Run) []core.Sub {
		r.Rule = "rewrites: programs of up to 4 packages, rewritten by up to 8 steps: statements extracted into helpers (any package and file, generic, variadic, the context at any position, called in 7 ways, several levels deep), wrapped in 23 forms of control flow, helpers inlined, functions moved to other packages and files, contexts, helpers and imports renamed, dot imports, handlers inline, named or made by a function, 30 forms of constants and values. forms: programs with all of these against the model. Non-trivial: at least two different steps, or a helper in another package."
		r.Assume = []string{stubAssume, "types stay in their package in rewrites; forms has them in any package"}
		gen := prog.Gen{Pkgs: 3, Types: 5, MinTypes: 1, Depth: 2, Embed: true, Handlers: 3, Helpers: 2, HForms: true, Stmts: 5, Ctl: 2, Docs: true,
			PkgForms: true, XForms: true, VForms: true, Enums: true, Ext: []string{"time.Time", "error", "gin.H"},
			Kinds:   []string{"named", "named", "inline", "factory"},
			Weights: map[string]int{"resp": 3, "in": 2, "bind": 2, "header": 1, "call": 1, "ctl": 1}}
		forms := gen
		forms.Helpers, forms.Ctl, forms.Stmts = 5, 3, 4
		forms.Weights = map[string]int{"resp": 3, "in": 2, "bind": 2, "header": 1, "call": 4, "ctl": 3}
		deep := forms
		deep.Noise = prog.NoiseNames
		deep.Weights = map[string]int{"resp": 2, "in": 2, "bind": 1, "call": 4, "ctl": 3, "noise": 1}
		return []core.Sub{
			core.ParProp[rwCase]{
				Name: "rewrites", Quick: 550, Thorough: 9000,
				Gen: rapid.Custom(func(t *rapid.T) rwCase { return rwCase{P: gen.Draw().Draw(t, "p"), Rws: drawRws(t, 8)} }),
				NonTrivial: func(c rwCase) bool {
					k := map[string]bool{}
					for _, w := range c.Rws {
						k[w.K] = true
					}
					return len(k) > 1
				},
				Classify: func(c rwCase) []string {
					var out []string
					for _, w := range c.Rws {
						out = append(out, "step:"+w.K)
					}
					return out
				},
				Shrink: shrinkRw,
				Oracle: func(r *core.Run, c rwCase) error { return c.run(r) },
			},
			compareProp("forms", deep, prog.Cmp{Responses: true, Requests: true, RespHeaders: true, Paths: true, OpIDs: true}, 450, 8000, func(p prog.Program) bool {
				f := false
				for _, fn := range p.Funcs {
					f = f || fn.Kind == "helper" && fn.Pkg > 0
				}
				return f && countStmts(p, "call") > 0
			}),
		}
	})
}
