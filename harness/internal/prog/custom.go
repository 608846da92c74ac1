package prog

import (
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"slices"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"

	"verif/harness/internal/core"
)

// customMethods are the context methods that custom functions can handle, and
// what they know of their parameters.
var customMethods = map[string][]string{
	"JSON": {"status", "val"}, "XML": {"status", "val"}, "YAML": {"status", "val"}, "ProtoBuf": {"status", "val"}, "AbortWithStatusJSON": {"status", "val"},
	"Status": {"status"}, "AbortWithStatus": {"status"}, "String": {"status", "ign"},
	"Query": {"str"}, "GetQuery": {"str"}, "QueryArray": {"str"}, "PostForm": {"str"}, "GetPostForm": {"str"}, "FormFile": {"str"}, "GetHeader": {"str"},
	"Header": {"str", "ign"},
}

// customOptions registers the custom functions in the worker. Each logs what
// it is offered: its index, the route, the package, the file and position of
// the call and the name of the context.
func customOptions(regs []Reg, orders map[string][]string, res *Result) []astra.Option {
	var opts []astra.Option
	for i, r := range regs {
		opts = append(opts, astra.WithCustomFunc(func(ctxName string, b *astra.ContextFuncBuilder) (*astra.Route, error) {
			pk := b.Traverser.File.Package.Package
			pos := pk.Fset.Position(b.Traverser.Node.Pos())
			res.Log = append(res.Log, fmt.Sprintf("%d|%s %s|%s|%s:%d:%d|%s", i, b.Route.Method, b.Route.Path, pk.Name, filepath.Base(pos.Filename), pos.Line, pos.Column, ctxName))
			fn, err := b.Traverser.Type()
			if err != nil {
				if r.Err {
					return nil, err
				}
				return nil, nil
			}
			if !slices.Contains(r.Names, fn.Name()) {
				return nil, nil
			}
			order, known := orders[fn.Name()]
			if known {
				if err := callFacts(b.Traverser, ctxName, order); err != nil {
					res.Log = append(res.Log, fmt.Sprintf("!a call of %s at %s: %v", fn.Name(), pos, err))
				}
			}
			if m, ok := customMethods[fn.Name()]; !known && ok && fn.Pkg() != nil && fn.Pkg().Path() == ginPath {
				order, known = m, true
			}
			if !known { // another helper, of which only the name is known
				return b.Build(func(route *astra.Route, params []any) (*astra.Route, error) {
					if len(params) != 0 {
						return nil, errors.New("parameters without operations")
					}
					return r.apply(i, fn.Name(), route, nil, nil)
				})
			}
			for _, o := range order {
				switch {
				case o == "status" && !slices.Contains(order, "val"):
					b = b.Value()
				case o == "status":
					b = b.StatusCode()
				case o == "val":
					b = b.ExpressionResult()
				case o == "str":
					b = b.Value()
				default:
					b = b.Ignored()
				}
			}
			return b.Build(func(route *astra.Route, params []any) (*astra.Route, error) {
				return r.apply(i, fn.Name(), route, order, params)
			})
		}))
	}
	return opts
}

// callFacts checks what custom functions can ask of a call against the order of the parameters of its function.
func callFacts(t *astTraversal.CallExpressionTraverser, ctxName string, order []string) error {
	if n := len(t.Args()); n != len(order) {
		return fmt.Errorf("%d arguments, want %d", n, len(order))
	}
	want := slices.Index(order, "ctx")
	if want >= 0 { // the context can have got another name
		if x, ok := t.Args()[want].(*ast.Ident); ok {
			ctxName = x.Name
		}
	}
	if i, ok := t.ArgIndex(ctxName); ok != (want >= 0) || ok && i != want {
		return fmt.Errorf("the context is argument %d, %v, want %d", i, ok, want)
	}
	for i, o := range order {
		v, err := t.ArgType(i)
		if err != nil {
			return err
		}
		if want := map[string]string{"ctx": "*" + ginPath + ".Context", "status": "int", "str": "string", "ign": "any"}[o]; want != "" && v.Type().String() != want {
			return fmt.Errorf("parameter %d is a %s, want %s", i, v.Type(), want)
		}
	}
	if v, err := t.ArgType(len(order)); err == nil {
		return fmt.Errorf("a parameter %s after the last", v)
	}
	if r, err := t.ReturnType(0); err != nil || r.String() != "bool" {
		return fmt.Errorf("the result is %v, %v, want bool", r, err)
	}
	if r, err := t.ReturnType(1); err == nil {
		return fmt.Errorf("a second result %s", r)
	}
	return nil
}

// apply adds what a call says to the route, or declines it.
func (r Reg) apply(i int, name string, route *astra.Route, order []string, params []any) (*astra.Route, error) {
	if len(order) != len(params) {
		return nil, fmt.Errorf("%d parameters for %d operations", len(params), len(order))
	}
	status, str := "", ""
	code := 0
	var val *astTraversal.Result
	for k, o := range order {
		switch o {
		case "status":
			switch x := params[k].(type) {
			case int:
				status, code = fmt.Sprint(x), x
			case string:
				status = x
				_, _ = fmt.Sscan(x, &code)
			}
		case "val":
			if v, ok := params[k].(astTraversal.Result); ok {
				val = &v
			}
		case "str":
			str, _ = params[k].(string)
		default:
			if params[k] != nil {
				return nil, fmt.Errorf("an ignored parameter is %v", params[k])
			}
		}
	}
	if r.Even && code%2 == 1 {
		return nil, nil
	}
	if r.Copy {
		c := *route
		c.ReturnTypes = slices.Clone(c.ReturnTypes)
		route = &c
	}
	route.ResponseHeaders = append(route.ResponseHeaders, astra.Param{Name: fmt.Sprintf("X-Reg%d", i), Field: astra.Field{Type: "string"}})
	if f := r.hand(val); f != nil {
		route.ReturnTypes = astra.AddReturnType(route.ReturnTypes, astra.ReturnType{StatusCode: handStatus, ContentType: handCT, Field: *f})
	}
	switch {
	case val != nil:
		route.ReturnTypes = astra.AddReturnType(route.ReturnTypes, astra.ReturnType{StatusCode: code, ContentType: customCT(name, order, str), Field: astra.ParseResultToField(*val)})
	case status != "":
		route.ResponseHeaders = append(route.ResponseHeaders, astra.Param{Name: "X-S" + status, Field: astra.Field{Type: "string"}})
	}
	if str != "" && val == nil {
		route.QueryParams = append(route.QueryParams, astra.Param{Name: "custom." + str, Field: astra.Field{Type: "string"}})
	}
	return route, nil
}

// handStatus and handCT are where fields that custom functions make up are.
const handStatus, handCT = 508, "application/x-hand"

// hand is the field that a custom function makes up.
func (r Reg) hand(val *astTraversal.Result) *astra.Field {
	switch r.Hand {
	case "slice":
		return &astra.Field{Type: "slice", SliceType: "string"}
	case "map":
		return &astra.Field{Type: "map", MapKeyType: "string", MapValueType: "bool"}
	}
	if r.Hand == "" || val == nil || val.Package == nil || val.Elem != nil || val.StructFields != nil || astra.IsAcceptedType(val.Type) {
		return nil
	}
	f := astra.ParseResultToField(*val)
	if f.Package != "main" && !slices.ContainsFunc(modules, func(m string) bool { return f.Package == m || strings.HasPrefix(f.Package, m+"/") }) {
		return nil
	}
	if r.Hand == "sliceof" {
		return &astra.Field{Type: "slice", SliceType: f.Type, Package: f.Package}
	}
	return &astra.Field{Type: "map", MapKeyType: "string", MapValueType: f.Type, Package: f.Package}
}

func customCT(name string, order []string, str string) string {
	if slices.Contains(order, "str") {
		return str
	}
	return "application/vnd." + strings.ToLower(name)
}

// callName is the name of the function that a statement calls.
func (p *Program) callName(s *Stmt) string {
	switch s.K {
	case "call":
		return p.Funcs[s.Fn].Name
	case "resp", "in", "bind":
		return s.M
	case "header":
		return "Header"
	}
	return ""
}

func (p *Program) order(s *Stmt) []string {
	if s.K == "call" {
		return p.Funcs[s.Fn].Order
	}
	return customMethods[p.callName(s)]
}

// handledBy is the custom function that handles a statement, or -1.
func (p *Program) handledBy(s *Stmt) int {
	name := p.callName(s)
	if name == "" || s.K == "call" && (s.F == "paren" || s.F == "inst") { // the function of such a call is not known
		return -1
	}
	for i, r := range p.Regs {
		if slices.Contains(r.Names, name) && !(r.Even && slices.Contains(p.order(s), "status") && s.St.I%2 == 1) {
			return i
		}
	}
	return -1
}

// followed tells whether calls of the helper are followed.
func (f Func) followed() bool {
	return len(f.Order) == 0 || slices.Contains(f.Order, "ctx") && !f.Method
}

// expectCustom is what a handled statement adds.
func (c *Ctx) expectCustom(op *ExpOp, s *Stmt, reg int) {
	order := c.P.order(s)
	op.RespHeaders[fmt.Sprintf("X-Reg%d", reg)] = true
	has := func(o string) bool { return slices.Contains(order, o) }
	switch hand := c.P.Regs[reg].Hand; {
	case hand == "slice":
		op.resp(handStatus, handCT, &Shape{Kind: "type", T: Slice(Basic("string"))})
	case hand == "map":
		op.resp(handStatus, handCT, &Shape{Kind: "type", T: Map(Basic("string"), Basic("bool"))})
	case hand != "" && has("val") && c.norm(s.Val.T).K == "named":
		t := Slice(s.Val.T)
		if hand == "mapof" {
			t = Map(Basic("string"), s.Val.T)
		}
		op.resp(handStatus, handCT, &Shape{Kind: "type", T: t, View: c.resolveView(s.Val.T, "")})
	}
	switch {
	case has("val"):
		str := ""
		if has("str") {
			str = s.Str.S
		}
		ct := customCT(c.P.callName(s), order, str)
		op.resp(s.St.I, ct, &Shape{Kind: "type", T: s.Val.T, View: c.resolveView(s.Val.T, ctView[ct])})
	case has("status"):
		op.RespHeaders[fmt.Sprintf("X-S%d", s.St.I)] = true
	}
	if has("str") && !has("val") {
		k := PKey{"custom." + s.Str.S, "query"}
		op.Params[k] = append(op.Params[k], Shape{Kind: "scalar"})
	}
}

// ---- rendering ----

func (r *renderer) customFun(fn *Func, f *fileBuf, b *strings.Builder, gin string, body func(string), ret *string) {
	var params []string
	tp := ""
	for j, o := range fn.Order {
		switch o {
		case "ctx":
			params = append(params, fn.Ctx+" *"+gin+"Context")
		case "status":
			params = append(params, fmt.Sprintf("p%d int", j))
		case "val":
			if fn.Gen && !fn.Method {
				tp = "[T any]"
				params = append(params, fmt.Sprintf("p%d T", j))
			} else {
				params = append(params, fmt.Sprintf("p%d any", j))
			}
		case "str":
			params = append(params, fmt.Sprintf("p%d string", j))
		default:
			params = append(params, fmt.Sprintf("p%d any", j))
		}
	}
	recv := ""
	if fn.Method {
		fmt.Fprintf(b, "type %sRecv struct{}\n\n", fn.Name)
		recv = fmt.Sprintf("(%sRecv) ", fn.Name)
	}
	fmt.Fprintf(b, "func %s%s%s(%s) bool {\n", recv, fn.Name, tp, strings.Join(params, ", "))
	*ret = "return false"
	body("\t")
	b.WriteString("\treturn true\n}\n")
	f.body.WriteString(b.String())
}

func (c *fnCtx) customArgs(s *Stmt, h Func) []string {
	var args []string
	n := 0
	for _, o := range h.Order {
		switch o {
		case "ctx":
			args = append(args, c.ctx)
		case "status":
			args = append(args, c.xint(*s.St))
		case "val":
			args = append(args, c.val(*s.Val))
		case "str":
			args = append(args, c.xstr(*s.Str))
		default:
			arg := "nil"
			if n < len(s.Else) && s.Else[n].K == "in" && inputResults[s.Else[n].M] == 1 {
				arg = fmt.Sprintf("%s.%s(%s)", c.ctx, s.Else[n].M, c.xstr(*s.Else[n].Str))
			}
			n++
			args = append(args, arg)
		}
	}
	return args
}

// ---- generating ----

func (g *gen) customFunc(f *Func) {
	f.Name = fmt.Sprintf("Cust%d", g.next())
	f.Form, f.Params, f.CtxPos = "", 0, 0
	order := []string{}
	if !g.one(6, "noctx") {
		order = append(order, "ctx")
	}
	switch g.int(0, 5, "ckind") {
	case 0:
		order = append(order, "status", "val", "str")
	case 1:
		order = append(order, "status")
	case 2:
		order = append(order, "str")
	case 3:
		order = append(order, "status", "str")
	default:
		order = append(order, "status", "val")
	}
	for k := g.int(0, 2, "igns"); k > 0; k-- {
		order = append(order, "ign")
	}
	f.Order = order
	if g.bool("permute") {
		for i := len(order) - 1; i > 0; i-- {
			j := g.int(0, i, "swap")
			order[i], order[j] = order[j], order[i]
		}
	}
	f.Method = g.one(5, "method")
	f.Gen = g.one(4, "gen")
}

func (g *gen) customCall(fn int, s *Stmt, h Func) bool {
	has := func(o string) bool { return slices.Contains(h.Order, o) }
	if has("status") {
		x := g.x(fn, IntForms)
		x.I = pick(g, statuses, "status")
		s.St = &x
	}
	if has("str") {
		str := pick(g, strNames, "name")
		if has("val") {
			str = pick(g, []string{"application/json", "text/csv", "application/vnd.x", "application/problem+json"}, "ct")
		}
		s.Str = g.str(fn, str)
	}
	if has("val") {
		str := ""
		if has("str") {
			str = s.Str.S
		}
		key := fmt.Sprintf("%d %s", s.St.I, customCT(h.Name, h.Order, str))
		if _, ok := g.used[fn][key]; ok {
			return false
		}
		v, ok := g.value(fn, "")
		if !ok {
			return false
		}
		g.take(fn, map[string]int{key: g.next()})
		s.Val = &v
	}
	for _, o := range h.Order {
		if o == "ign" && g.bool("nestin") {
			s.Else = append(s.Else, Stmt{K: "in", M: pick(g, []string{"Query", "QueryArray", "PostForm", "GetHeader", "PostFormMap"}, "nin"), Str: g.str(fn, pick(g, strNames, "name"))})
		}
	}
	return true
}

func (g *gen) regs() {
	var pool, methods []string
	for _, f := range g.p.Funcs {
		if f.Kind == "helper" {
			pool = append(pool, f.Name)
		}
		WalkStmts(f.Body, func(s *Stmt) {
			if n := g.p.callName(s); customMethods[n] != nil {
				methods = append(methods, n)
			}
		})
	}
	if len(methods) > 0 && g.bool("methods") {
		pool = append(pool, methods...)
	}
	if len(pool) == 0 {
		pool = append(pool, "none")
	}
	errs := g.one(3, "errs")
	if errs { // a failing custom function gives up such calls
		for i := range g.p.Funcs {
			WalkStmts(g.p.Funcs[i].Body, func(s *Stmt) {
				if s.K == "call" && (s.F == "paren" || s.F == "inst") {
					s.F = ""
				}
			})
		}
	}
	for n := g.int(0, 3, "regs"); n > 0; n-- {
		r := Reg{Even: g.one(3, "even"), Copy: g.bool("copy"), Hand: pick(g, []string{"", "", "slice", "map", "sliceof", "mapof"}, "hand"), Err: errs && g.bool("err")}
		for k := g.int(0, 3, "names"); k > 0; k-- {
			r.Names = append(r.Names, pick(g, pool, "rname"))
		}
		g.p.Regs = append(g.p.Regs, r)
	}
}

// ---- what custom functions are offered ----

// CheckOffers checks that the log of a worker has, for every custom function,
// exactly the calls it has to be offered.
func (p *Program) CheckOffers(rd *Rendered, log []string) error {
	for _, l := range log {
		if strings.HasPrefix(l, "!") {
			return errors.New(l[1:])
		}
	}
	type call struct{ name, ctx string }
	fset := token.NewFileSet()
	files := map[string]*ast.File{}
	for path, src := range rd.Files {
		if rd.decoys[path] {
			continue
		}
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			core.Infraf("generated file %s: %v", path, err)
		}
		files[path] = f
	}
	pkgOf := func(path string) (string, int) {
		for i, pk := range p.Pkgs {
			if filepath.Dir(path) == filepath.Clean(pk.Path) || i == 0 && filepath.Dir(path) == "." {
				if i == 0 {
					return "main", 0
				}
				return pk.Name, i
			}
		}
		return "", -1
	}
	// the calls in the body of each function, by position
	calls := map[int]map[string]call{}
	collect := func(i int, path string, body ast.Node) {
		m := map[string]call{}
		pkg, _ := pkgOf(path)
		ast.Inspect(body, func(n ast.Node) bool {
			if x, ok := n.(*ast.CallExpr); ok {
				pos := fset.Position(x.Pos())
				name := ""
				switch f := x.Fun.(type) {
				case *ast.Ident:
					name = f.Name
				case *ast.SelectorExpr:
					name = f.Sel.Name
				}
				key := fmt.Sprintf("%s|%s:%d:%d", pkg, filepath.Base(path), pos.Line, pos.Column)
				if old, ok := m[key]; ok && name != old.name { // f()(): both start there
					name = "?"
				}
				m[key] = call{name, p.Funcs[i].Ctx}
			}
			return true
		})
		calls[i] = m
	}
	for path, f := range files {
		_, pkg := pkgOf(path)
		for i, fn := range p.Funcs {
			if fn.Pkg != pkg {
				continue
			}
			if fn.Kind == "inline" || fn.Kind == "factory" {
				h, ok := rd.Handlers[i]
				if !ok || h.File != path {
					continue
				}
				ast.Inspect(f, func(n ast.Node) bool {
					if l, ok := n.(*ast.FuncLit); ok && fset.Position(l.Pos()).Line == h.Line && calls[i] == nil {
						collect(i, path, l.Body)
					}
					return true
				})
				continue
			}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == fn.Name && fd.Body != nil {
					collect(i, path, fd.Body)
				}
			}
		}
	}
	got := map[string]string{} // reg|route|pkg|pos -> context name
	for _, l := range log {
		f := strings.Split(l, "|")
		if _, i := pkgByName(p, f[2]); i == 0 {
			f[2] = "main"
		}
		got[strings.Join(f[:4], "|")] = f[4]
	}
	want := map[string]bool{}
	for _, rt := range p.Routes {
		reached := map[int]bool{}
		var add func(i int)
		add = func(i int) {
			if reached[i] {
				return
			}
			reached[i] = true
			WalkStmts(p.Funcs[i].Body, func(s *Stmt) {
				if s.K == "call" && p.handledBy(s) < 0 && p.Funcs[s.Fn].followed() {
					add(s.Fn)
				}
			})
		}
		add(rt.Fn)
		for i := range reached {
			for pos, c := range calls[i] {
				for k := range p.Regs {
					must, may := true, true
					for _, e := range p.Regs[:k] {
						if slices.Contains(e.Names, c.name) || c.name == "?" {
							must = false
							may = may && (e.Even || c.name == "?")
						}
						if e.Err {
							must = false
						}
					}
					key := fmt.Sprintf("%d|%s %s|%s", k, rt.Method, rt.Path, pos)
					ctx, ok := got[key]
					if !ok && must {
						return fmt.Errorf("custom function %d is not offered the call of %s at %s for %s %s", k, c.name, pos, rt.Method, rt.Path)
					}
					if ok && ctx != c.ctx {
						return fmt.Errorf("custom function %d is given the context name %q instead of %q for the call of %s at %s", k, ctx, c.ctx, c.name, pos)
					}
					if may {
						want[key] = true
					}
				}
			}
		}
	}
	for k := range got {
		if !want[k] {
			return fmt.Errorf("a custom function is offered a call it must not be offered: %s", k)
		}
	}
	return nil
}

func pkgByName(p *Program, name string) (string, int) {
	for i, pk := range p.Pkgs {
		if i > 0 && pk.Name == name {
			return name, i
		}
	}
	return "main", 0
}

// AnyHandled tells whether a custom function handles a call of some route.
func (p *Program) AnyHandled() bool {
	found := false
	fs, _ := p.reachable()
	for i := range fs {
		WalkStmts(p.Funcs[i].Body, func(s *Stmt) { found = found || p.handledBy(s) >= 0 })
	}
	return found
}
