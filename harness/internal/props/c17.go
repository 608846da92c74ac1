package props

import (
	"verif/harness/internal/core"
	"verif/harness/internal/prog"
)

func init() {
	register("C17", func(r *core.Run) []core.Sub {
		r.Rule = "Programs of up to 3 packages with up to 3 handlers and 5 helpers, some known to custom functions (with the context, status, value, text and ignored parameters at any position, generic, methods, without the context); up to 3 registered custom functions that handle up to 3 functions or context methods each, some only calls with an even status code; input reads nested in the arguments of handled calls. Non-trivial: a custom function handles a call of a route."
		r.Assume = []string{stubAssume, "a custom function that fails for a call gives that call up; only calls of unknown functions are failed here"}
		gen := prog.Gen{Pkgs: 2, Types: 4, MinTypes: 1, Depth: 2, Handlers: 3, Helpers: 5, HForms: true, Stmts: 6, Ctl: 2, XForms: true, VForms: true, Customs: true,
			Kinds: []string{"named", "named", "inline", "factory"}, Ext: []string{"time.Time", "error"},
			Weights: map[string]int{"resp": 2, "in": 2, "bind": 1, "header": 1, "call": 5, "ctl": 1}}
		return []core.Sub{core.ParProp[prog.Program]{
			Name: "custom", Gen: gen.Draw(), Quick: 1300, Thorough: 18000, Shrink: prog.Shrink, Classify: classify,
			NonTrivial: func(p prog.Program) bool { return p.AnyHandled() },
			Oracle: func(r *core.Run, p prog.Program) error {
				return env(r).Generate(&p, nil, func(o prog.Outcome) error {
					if o.Err != nil {
						return o.Err
					}
					if err := prog.NewCtx(&p).CompareDoc(o.Doc, prog.Cmp{Responses: true, Requests: true, RespHeaders: true}); err != nil {
						return err
					}
					return p.CheckOffers(o.Rd, o.Log)
				})
			},
		}}
	})
}
