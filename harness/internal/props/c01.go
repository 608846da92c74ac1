package props

import (
	"verif/harness/internal/core"
	"verif/harness/internal/prog"
)

func init() {
	register("C01", func(r *core.Run) []core.Sub {
		r.Rule = "Programs of up to 3 packages with up to 3 handlers and 3 helpers; each writes up to 5 responses through the 10 supported calls, with status codes and names in 30 forms (literals, constants, once-assigned variables, of this and other files and packages), values in 30 forms, in up to 2 levels of 23 forms of control flow. Non-trivial: at least two responses are written."
		r.Assume = []string{"gin is replaced by a module of the same path and signatures, the routes are given as gin reports them (C05 and C08 run the real router)", "one type per status code and content type of a handler"}
		gen := prog.Gen{Pkgs: 2, Types: 5, MinTypes: 1, Depth: 2, Handlers: 3, Helpers: 3, HForms: true, Stmts: 5, Ctl: 2, XForms: true, VForms: true,
			Kinds: []string{"named", "named", "inline", "factory"}, Ext: []string{"time.Time", "error", "gin.H", "uuid.UUID"},
			Weights: map[string]int{"resp": 6, "in": 1, "bind": 1, "header": 1, "call": 1, "ctl": 2}}
		return []core.Sub{
			compareProp("responses", gen, prog.Cmp{Responses: true, RespHeaders: true}, 1500, 20000, func(p prog.Program) bool { return countStmts(p, "resp") >= 2 }),
		}
	})
}
