package prog

import "slices"

// Shrink reduces a program while fails holds: routes, statements, fields,
// documentation, constants and mappings are removed, forms become plain.
func Shrink(p Program, fails func(Program) bool) Program {
	try := func(edit func(*Program) bool) bool {
		q := p.Clone()
		if !edit(&q) {
			return false
		}
		if fails(q) {
			p = q
			return true
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for i := len(p.Routes) - 1; i >= 0 && len(p.Routes) > 1; i-- {
			changed = try(func(q *Program) bool { q.Routes = slices.Delete(q.Routes, i, i+1); return true }) || changed
		}
		// statement lists, addressed by their order
		for li := 0; li < len(lists(&p)); li++ {
			for j := len(*lists(&p)[li]) - 1; j >= 0; j-- {
				if li >= len(lists(&p)) || j >= len(*lists(&p)[li]) {
					continue
				}
				if try(func(q *Program) bool { l := lists(q)[li]; *l = slices.Delete(*l, j, j+1); return true }) {
					changed = true
					continue
				}
				// replace a statement by what it contains
				changed = try(func(q *Program) bool {
					l := lists(q)[li]
					s := (*l)[j]
					if len(s.Body)+len(s.Else) == 0 {
						return false
					}
					*l = slices.Concat((*l)[:j:j], s.Body, s.Else, (*l)[j+1:])
					return true
				}) || changed
			}
		}
		for i := 0; i < len(stmtsOf(&p)); i++ {
			changed = try(func(q *Program) bool {
				s := stmtsOf(q)[i]
				did := false
				if s.St != nil && s.St.Form != "lit" {
					s.St.Form, did = "lit", true
				}
				if s.Str != nil && s.Str.Form != "lit" {
					s.Str.Form, did = "lit", true
				}
				if s.Val != nil && s.Val.Form != "var" && s.Val.Form != "addr" {
					s.Val.Form, did = "var", true
					if s.K == "bind" {
						s.Val.Form = "addr"
					}
				}
				return did
			}) || changed
			changed = try(func(q *Program) bool {
				s := stmtsOf(q)[i]
				if s.F == "" {
					return false
				}
				s.F = ""
				return len(s.Body) == 0
			}) || changed
			changed = try(func(q *Program) bool {
				s := stmtsOf(q)[i]
				if s.Val == nil || s.K == "bind" {
					return false
				}
				switch {
				case s.Val.T.El != nil:
					s.Val.T = *s.Val.T.El
					return true
				case s.Val.T.K == "named":
					s.Val.T = Basic("string")
					return true
				}
				return false
			}) || changed
		}
		for i := range p.Types {
			for j := len(p.Types[i].T.Fields) - 1; j >= 0; j-- {
				changed = try(func(q *Program) bool {
					fs := q.Types[i].T.Fields
					q.Types[i].T.Fields = slices.Delete(fs, j, j+1)
					return true
				}) || changed
			}
			for j := range p.Types[i].T.Fields {
				changed = try(func(q *Program) bool {
					f := &q.Types[i].T.Fields[j]
					if f.Embed || f.T.K == "basic" {
						return false
					}
					if f.T.El != nil {
						f.T = *f.T.El
					} else {
						f.T = Basic("string")
					}
					return true
				}) || changed
				changed = try(func(q *Program) bool {
					f := &q.Types[i].T.Fields[j]
					if len(f.Tags) == 0 && len(f.Doc) == 0 && f.Trail == "" && !f.Flat && !f.Join {
						return false
					}
					f.Tags, f.Doc, f.Trail, f.Flat, f.Join = nil, nil, "", false, false
					return true
				}) || changed
			}
			for j := len(p.Types[i].Consts) - 1; j >= 0; j-- {
				changed = try(func(q *Program) bool {
					q.Types[i].Consts = slices.Delete(q.Types[i].Consts, j, j+1)
					return true
				}) || changed
			}
			changed = try(func(q *Program) bool {
				d := &q.Types[i]
				if len(d.Doc) == 0 && d.Group == 0 && d.File == 0 && !d.Block {
					return false
				}
				d.Doc, d.Group, d.File, d.Block = nil, 0, 0, false
				return true
			}) || changed
		}
		for i := range p.Funcs {
			changed = try(func(q *Program) bool {
				f := &q.Funcs[i]
				if len(f.Doc) == 0 && f.File == 0 && f.Params == 0 && f.Form == "" && !f.Block {
					return false
				}
				f.Doc, f.File, f.Params, f.CtxPos, f.Form, f.Block = nil, 0, 0, 0, "", false
				return true
			}) || changed
		}
		for i := range p.Pkgs {
			changed = try(func(q *Program) bool {
				if q.Pkgs[i].Style == "" && q.Pkgs[i].Gin == "" {
					return false
				}
				q.Pkgs[i].Style, q.Pkgs[i].Gin = "", ""
				return true
			}) || changed
		}
		for i := len(p.Regs) - 1; i >= 0; i-- {
			changed = try(func(q *Program) bool { q.Regs = slices.Delete(q.Regs, i, i+1); return true }) || changed
		}
		for i := range p.Regs {
			for j := len(p.Regs[i].Names) - 1; j >= 0; j-- {
				changed = try(func(q *Program) bool { q.Regs[i].Names = slices.Delete(q.Regs[i].Names, j, j+1); return true }) || changed
			}
		}
		if p.Scheme != "" {
			changed = try(func(q *Program) bool { q.Scheme = ""; return true }) || changed
		}
		for i := range p.Types {
			if p.Types[i].Flat {
				changed = try(func(q *Program) bool { q.Types[i].Flat = false; return true }) || changed
			}
		}
		if p.Main != "" {
			changed = try(func(q *Program) bool { q.Main = ""; return true }) || changed
		}
		if p.Imports != 0 {
			changed = try(func(q *Program) bool { q.Imports = 0; return true }) || changed
		}
		if p.ModAs != 0 {
			changed = try(func(q *Program) bool { q.ModAs = 0; return true }) || changed
		}
		for i := len(p.Decoys) - 1; i >= 0; i-- {
			changed = try(func(q *Program) bool { q.Decoys = slices.Delete(q.Decoys, i, i+1); return true }) || changed
		}
		for i := len(p.Maps) - 1; i >= 0; i-- {
			changed = try(func(q *Program) bool { q.Maps = slices.Delete(q.Maps, i, i+1); return true }) || changed
		}
	}
	return p
}

func lists(p *Program) []*[]Stmt {
	var out []*[]Stmt
	var add func(l *[]Stmt)
	add = func(l *[]Stmt) {
		out = append(out, l)
		for i := range *l {
			add(&(*l)[i].Body)
			add(&(*l)[i].Else)
		}
	}
	f, _ := p.reachable()
	for i := range p.Funcs {
		if f[i] {
			add(&p.Funcs[i].Body)
		}
	}
	return out
}

func stmtsOf(p *Program) []*Stmt {
	var out []*Stmt
	f, _ := p.reachable()
	for i := range p.Funcs {
		if f[i] {
			WalkStmts(p.Funcs[i].Body, func(s *Stmt) { out = append(out, s) })
		}
	}
	return out
}
