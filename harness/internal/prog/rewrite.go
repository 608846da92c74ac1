package prog

import (
	"fmt"
	"slices"
)

// Rw is a rewriting of a program that does not change what its handlers do.
// The numbers select the place and the form; each is taken modulo what there is.
type Rw struct {
	K       string `json:"k"` // extract wrap inline file ctx kind import form move split
	A, B, C int
	S       string
}

// RwKinds are the kinds of rewritings.
var RwKinds = []string{"extract", "extract", "extract", "wrap", "wrap", "inline", "inline", "file", "ctx", "kind", "import", "form", "form", "move", "move", "name"}

// lowPkg is the lowest package that statements refer to.
func (p *Program) lowPkg(ss []Stmt) int {
	low := len(p.Pkgs) - 1
	WalkStmts(ss, func(s *Stmt) {
		if s.K == "call" {
			low = min(low, p.Funcs[s.Fn].Pkg)
		}
		for _, x := range []*X{s.St, s.Str} {
			if x != nil && (x.Form == "constPkg" || x.Form == "varPkg") {
				low = min(low, x.Pkg)
			}
		}
		if s.Val != nil {
			low = min(low, s.Val.Pkg)
			s.Val.T.walk(func(t *TExpr) {
				if t.K == "named" {
					low = min(low, p.Types[t.ID].Pkg)
				}
			})
		}
	})
	return low
}

// highCaller is the highest package that calls a function.
func (p *Program) highCaller(fn int) int {
	high := 0
	for i := range p.Funcs {
		WalkStmts(p.Funcs[i].Body, func(s *Stmt) {
			if s.K == "call" && s.Fn == fn {
				high = max(high, p.Funcs[i].Pkg)
			}
		})
	}
	return high
}

func (p *Program) reaches(from, to int, seen map[int]bool) bool {
	if from == to {
		return true
	}
	if seen[from] {
		return false
	}
	seen[from] = true
	found := false
	WalkStmts(p.Funcs[from].Body, func(s *Stmt) {
		found = found || s.K == "call" && p.reaches(s.Fn, to, seen)
	})
	return found
}

// ownedLists are the statement lists of the functions the routes need, with their function.
func ownedLists(p *Program) (out []*[]Stmt, owner []int) {
	f, _ := p.reachable()
	for i := range p.Funcs {
		if !f[i] {
			continue
		}
		var add func(l *[]Stmt)
		add = func(l *[]Stmt) {
			if len(*l) > 0 {
				out, owner = append(out, l), append(owner, i)
			}
			for k := range *l {
				add(&(*l)[k].Body)
				add(&(*l)[k].Else)
			}
		}
		add(&p.Funcs[i].Body)
	}
	return out, owner
}

func mod(a, n int) int {
	if n <= 0 {
		return 0
	}
	return ((a % n) + n) % n
}

// span picks a range of a list.
func span(n, a, b int) (int, int) {
	i := mod(a, n)
	return i, i + 1 + mod(b, n-i)
}

// Rewrite applies the rewritings; kinds reports the handlers whose kind changed.
func Rewrite(p Program, rws []Rw) (q Program, kinds map[int]bool) {
	q = p.Clone()
	kinds = map[int]bool{}
	for n, w := range rws {
		q.rewrite(n, w, kinds)
	}
	return q, kinds
}

func (p *Program) rewrite(n int, w Rw, kinds map[int]bool) {
	ls, owner := ownedLists(p)
	if len(ls) == 0 {
		return
	}
	li := mod(w.A, len(ls))
	l, fn := ls[li], owner[li]
	used, _ := p.reachable()
	switch w.K {
	case "extract":
		i, j := span(len(*l), w.B, w.C)
		part := slices.Clone((*l)[i:j])
		low := p.lowPkg(part)
		from := p.Funcs[fn].Pkg
		if low < from {
			return
		}
		h := Func{Kind: "helper", Pkg: from + mod(w.C, low-from+1), File: mod(w.B, 3), Name: fmt.Sprintf("Extracted%d", n), Ctx: p.ctxName(w.C), Body: part}
		h.Params = mod(w.B, 4)
		h.CtxPos = mod(w.C, h.Params+1)
		h.Form = []string{"", "", "generic", "variadic"}[mod(w.A+w.C, 4)]
		s := Stmt{K: "call", Fn: len(p.Funcs), F: []string{"", "", "discard", "paren", "cond", "defer", "go"}[mod(w.B+w.C, 7)]}
		if h.Form == "generic" && s.F == "paren" {
			s.F = "inst"
		}
		*l = slices.Concat((*l)[:i:i], []Stmt{s}, (*l)[j:])
		p.Funcs = append(p.Funcs, h)
	case "wrap":
		i, j := span(len(*l), w.B, w.C)
		s := Stmt{K: "ctl", M: CtlForms[mod(w.B*7+w.C, len(CtlForms))], Body: slices.Clone((*l)[i:j])}
		if len(s.Body) > 1 && mod(w.C, 3) == 0 {
			s.Body, s.Else = s.Body[:1:1], s.Body[1:]
		}
		*l = slices.Concat((*l)[:i:i], []Stmt{s}, (*l)[j:])
	case "inline":
		var at []int
		for i, s := range *l {
			if s.K == "call" && len(s.Body) == 0 && !p.reaches(s.Fn, fn, map[int]bool{}) {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return
		}
		i := at[mod(w.B, len(at))]
		b := Program{Funcs: []Func{{Body: p.Funcs[(*l)[i].Fn].Body}}}.Clone().Funcs[0].Body
		*l = slices.Concat((*l)[:i:i], b, (*l)[i+1:])
	case "file":
		p.Funcs[fn].File = mod(w.B, 3)
	case "name":
		if f := &p.Funcs[fn]; f.Kind == "helper" {
			f.Name = fmt.Sprintf("%s%d", []string{"Write", "JSON", "Handler", "Query", "Respond", "Abort"}[mod(w.B, 6)], 1000+n)
		}
	case "ctx":
		p.Funcs[fn].Ctx = p.ctxName(w.B)
	case "kind":
		if f := &p.Funcs[fn]; f.Kind != "helper" {
			f.Kind = []string{"named", "inline", "factory"}[mod(w.B, 3)]
			f.Name = upperFirst(f.Name)
			kinds[fn] = true
		}
	case "import":
		k := &p.Pkgs[mod(w.B, len(p.Pkgs))]
		forms := []string{"", "renamed", "dot"}
		k.Gin = forms[mod(w.C, 3)]
		if k.Path != "" {
			k.Style = forms[mod(w.A, 3)]
		}
	case "form":
		s := &(*l)[mod(w.B, len(*l))]
		if s.St != nil {
			s.St.Form, s.St.Pkg = IntForms[mod(w.C, len(IntForms))], p.Funcs[fn].Pkg
		}
		if s.Str != nil {
			s.Str.Form, s.Str.Pkg = StrForms[mod(w.C, len(StrForms))], p.Funcs[fn].Pkg
		}
		if s.Val != nil && s.K == "resp" {
			s.Val.Form = ValForms[mod(w.C, len(ValForms))]
		}
		if s.Val != nil && s.K == "bind" {
			s.Val.Form = BindForms[mod(w.C, len(BindForms))]
		}
	case "move":
		f := &p.Funcs[fn]
		from, to := 0, p.lowPkg(f.Body)
		if f.Kind == "helper" {
			from = p.highCaller(fn)
		}
		if to < from || !used[fn] {
			return
		}
		f.Pkg = from + mod(w.B, to-from+1)
		f.Name = upperFirst(f.Name)
		f.Ctx = p.ctxName(w.C)
		// what the function needs of its own package comes from where it now is
		WalkStmts(f.Body, func(s *Stmt) {
			if s.Val != nil && s.Val.Pkg < f.Pkg {
				s.Val.Pkg = f.Pkg
			}
		})
	}
}

// ctxName is a context name that no package has.
func (p *Program) ctxName(n int) string {
	name := ctxNames[mod(n, len(ctxNames))]
	for _, k := range p.Pkgs {
		if k.Name == name {
			return "cx"
		}
	}
	return name
}
