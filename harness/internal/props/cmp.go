package props

import (
	"verif/harness/internal/core"
	"verif/harness/internal/prog"
)

const stubAssume = "gin and uuid are replaced by modules of the same paths and signatures, and the routes are given as gin reports them; C05, C06 and C08 run the real router"

func named(p prog.Program, f func(*prog.TypeDecl) bool) bool {
	for i := range p.Types {
		if f(&p.Types[i]) {
			return true
		}
	}
	return false
}

func init() {
	register("C02", func(r *core.Run) []core.Sub {
		r.Rule = "Programs of up to 3 packages with up to 3 handlers and 3 helpers that read inputs through the 14 reading calls and the 12 Bind calls, names in 26 forms, bound values in 7 forms, structs with up to 5 tag keys. Non-trivial: at least two inputs are read or one struct is bound."
		r.Assume = []string{stubAssume, "structs bound to a query or header have fields of basic types, slices of them or mapped types"}
		gen := prog.Gen{Pkgs: 2, Types: 5, MinTypes: 2, Depth: 1, Embed: true, Handlers: 3, Helpers: 3, HForms: true, Stmts: 5, Ctl: 2, XForms: true, VForms: true,
			Kinds: []string{"named", "named", "inline", "factory"}, Ext: []string{"time.Time", "uuid.UUID"},
			Weights: map[string]int{"resp": 1, "in": 5, "bind": 3, "header": 1, "call": 1, "ctl": 2}}
		tagged := gen
		tagged.Views = []string{"form", "json", "header", "xml", "yaml"}
		tagged.Types = 4
		nt := func(p prog.Program) bool { return countStmts(p, "in") >= 2 || countStmts(p, "bind") >= 1 }
		return []core.Sub{
			compareProp("inputs", gen, prog.Cmp{Requests: true}, 900, 12000, nt),
			compareProp("tagged", tagged, prog.Cmp{Requests: true}, 700, 10000, nt),
		}
	})
	register("C03", func(r *core.Run) []core.Sub {
		r.Rule = "Programs with up to 9 types over up to 4 packages: structs (embedded, recursive, anonymous fields, unexported, func, chan and interface fields, tagged or not), slices, arrays, maps and pointers up to 4 deep, named non-structs and aliases, used by up to 2 handlers. scoped: types declared in functions and generic types, their instances, aliases and embedding. Non-trivial: at least three types are declared, one of them a struct; scoped: two different types that are used have the same name and package."
		r.Assume = []string{stubAssume, "names promoted from embedded structs are not shadowed; an embedded struct is embedded once"}
		gen := prog.Gen{Pkgs: 3, Types: 9, MinTypes: 2, Depth: 4, Embed: true, Recurse: true, Alias: true, Odd: true, Handlers: 2, Stmts: 4, Ctl: 0, Named: true, Enums: true,
			Ext:     []string{"time.Time", "uuid.UUID", "error", "time.Duration", "gin.H"},
			Weights: map[string]int{"resp": 3, "bind": 1}}
		tagged := gen
		tagged.Views, tagged.Options = []string{"json"}, true
		nt := func(p prog.Program) bool {
			return len(p.Types) >= 3 && named(p, func(d *prog.TypeDecl) bool { return d.T.K == "struct" && len(d.T.Fields) > 0 })
		}
		return []core.Sub{
			compareProp("plain", gen, prog.Cmp{Responses: true, Requests: true}, 700, 10000, nt),
			compareProp("tagged", tagged, prog.Cmp{Responses: true, Requests: true}, 700, 10000, nt),
			scopedProp(200, 4000),
		}
	})
	register("C13", func(r *core.Run) []core.Sub {
		r.Rule = "Programs with up to 6 types that use predefined (time.Time, uuid.UUID), substituted (time.Duration, error), basic and custom mapped types in fields, slices, arrays, maps, pointers, responses and bodies; up to 3 mapping options of up to 2 entries for types of the program, predefined or foreign types. Non-trivial: a custom mapping is given."
		r.Assume = []string{stubAssume, "a mapping is for a named type, not for a basic Go type"}
		gen := prog.Gen{Pkgs: 2, Types: 6, MinTypes: 2, Depth: 3, Embed: true, Alias: true, Handlers: 2, Stmts: 5, Maps: true, Enums: true, Recurse: true,
			Ext:     []string{"time.Time", "uuid.UUID", "time.Duration", "error", "time.Time"},
			Weights: map[string]int{"resp": 3, "bind": 2, "in": 1}}
		return []core.Sub{
			compareProp("mappings", gen, prog.Cmp{Responses: true, Requests: true}, 1000, 15000, func(p prog.Program) bool { return len(p.Maps) > 0 }),
			servicesProp(gen),
		}
	})
	register("C14", func(r *core.Run) []core.Sub {
		r.Rule = "Programs with up to 7 types, named strings, integers, floats and booleans among them, with up to 6 constants each, in single and grouped declarations over up to 4 files, literals in decimal, hexadecimal, octal, binary, rune, underscored, negative, exponent, raw and escaped spellings, and with constants that are not of the type (untyped, variables, converted, local, of the basic type). Non-trivial: a type has at least two constants of its own."
		r.Assume = []string{stubAssume, "the order between files is not specified; iota and other constant expressions are no literals and are not generated here"}
		gen := prog.Gen{Pkgs: 2, Types: 7, MinTypes: 3, Depth: 1, Handlers: 1, Stmts: 6, Enums: true, Named: true, Docs: false,
			Weights: map[string]int{"resp": 3, "bind": 1}}
		return []core.Sub{
			compareProp("enums", gen, prog.Cmp{Responses: true, Requests: true, Enums: true}, 1300, 18000, func(p prog.Program) bool {
				return named(p, func(d *prog.TypeDecl) bool {
					n := 0
					for _, c := range d.Consts {
						if c.Decoy == "" {
							n++
						}
					}
					return n >= 2
				})
			}),
		}
	})
	register("C15", func(r *core.Run) []core.Sub {
		r.Rule = "Programs with up to 5 types and 4 handlers of 3 kinds and 2 helpers over up to 3 packages, each with or without a line or block doc comment of up to 4 lines (indented, blank, non-ASCII, with quotes and markup), in up to 3 files, types in groups. Non-trivial: at least two doc comments."
		r.Assume = []string{stubAssume, "doc comment lines do not start with //"}
		gen := prog.Gen{Pkgs: 2, Types: 5, MinTypes: 1, Depth: 1, Docs: true, Handlers: 4, Helpers: 2, Stmts: 3, Ctl: 1, Named: true, TwoRoute: true,
			Kinds:   []string{"named", "named", "named", "inline", "factory"},
			Weights: map[string]int{"resp": 3, "bind": 1, "call": 1, "ctl": 1}}
		return []core.Sub{
			compareProp("docs", gen, prog.Cmp{Responses: true, Requests: true, Docs: true, OpIDs: true}, 1300, 18000, func(p prog.Program) bool {
				n := 0
				for _, d := range p.Types {
					n += min(1, len(d.Doc))
				}
				for _, f := range p.Funcs {
					n += min(1, len(f.Doc))
				}
				return n >= 2
			}),
		}
	})
	register("C16", func(r *core.Run) []core.Sub {
		r.Rule = "Programs with up to 3 handlers and 3 helpers whose documented calls are mixed with, and nested in, 65 kinds of other Go statements (closures, goroutines, defers, generics, method values, conversions, recursion, shadowing, labels, channels, dynamic status codes and names). Non-trivial: at least two such statements."
		r.Assume = []string{stubAssume, fmtTimeout}
		gen := prog.Gen{Pkgs: 2, Types: 4, MinTypes: 1, Depth: 2, Handlers: 3, Helpers: 3, HForms: true, Stmts: 5, Ctl: 3, Noise: prog.NoiseNames, Odd: true, Recurse: true,
			Kinds: []string{"named", "named", "inline", "factory"}, Ext: []string{"time.Time", "error"},
			Weights: map[string]int{"resp": 2, "in": 2, "bind": 1, "header": 1, "call": 1, "ctl": 1, "noise": 5}}
		return []core.Sub{
			compareProp("noise", gen, prog.Cmp{Responses: true, Requests: true, RespHeaders: true, Paths: true}, 1300, 18000, func(p prog.Program) bool { return countStmts(p, "noise") >= 2 }),
		}
	})
	register("C21", func(r *core.Run) []core.Sub {
		r.Rule = "Programs with up to 6 structs whose fields carry up to 5 binding tags with different names, options, hidden fields and missing tags, used as responses, bodies and parameters of every content type. Non-trivial: at least two values are bound or written."
		r.Assume = []string{stubAssume, "a struct has no binding tags at all or at least one field with all of those the program uses, or the value is not used with the missing one"}
		gen := prog.Gen{Pkgs: 1, Types: 6, MinTypes: 2, Depth: 2, Embed: true, Handlers: 2, Stmts: 6, Views: []string{"json", "form", "header", "xml", "yaml"}, Options: true,
			Ext:     []string{"time.Time"},
			Weights: map[string]int{"resp": 2, "bind": 4}}
		nested := gen
		nested.Views, nested.Recurse, nested.Alias = []string{"xml", "json"}, true, true
		nested.Depth = 3
		nt := func(p prog.Program) bool { return countStmts(p, "bind")+countStmts(p, "resp") >= 2 }
		return []core.Sub{
			compareProp("views", gen, prog.Cmp{Responses: true, Requests: true}, 700, 10000, nt),
			compareProp("nested", nested, prog.Cmp{Responses: true, Requests: true}, 600, 8000, nt),
			tagsProp(),
		}
	})
}

const fmtTimeout = "a generation that takes longer than two minutes counts as no answer, not as a violation"
