// Package prog describes small gin programs (types, handlers, helpers and
// routes), renders them as Go modules, runs astra on them and models what the
// OpenAPI document of each must say.
package prog

import (
	"encoding/json"
	"fmt"
	"strings"
)

// TExpr is a Go type expression.
type TExpr struct {
	K      string  `json:"k"`           // basic ext named ptr slice array map struct any iface func chan
	B      string  `json:"b,omitempty"` // name of a basic or ext type
	ID     int     `json:"id,omitempty"`
	Len    int     `json:"len,omitempty"`
	Key    *TExpr  `json:"key,omitempty"`
	El     *TExpr  `json:"el,omitempty"`
	Fields []Field `json:"fields,omitempty"`
}

// Field is a field of a struct type.
type Field struct {
	Name  string   `json:"name"`
	Embed bool     `json:"embed,omitempty"`
	T     TExpr    `json:"t"`
	Tags  []Tag    `json:"tags,omitempty"`
	Doc   []string `json:"doc,omitempty"`
	Join  bool     `json:"join,omitempty"`  // shares its declaration with the field before
	Flat  bool     `json:"flat,omitempty"`  // its unnamed struct is on one line
	Trail string   `json:"trail,omitempty"` // a comment behind it
}

// Tag is one key of a struct tag.
type Tag struct{ Key, Val string }

func (f Field) tag(key string) (string, bool) {
	for _, t := range f.Tags {
		if t.Key == key {
			return t.Val, true
		}
	}
	return "", false
}

// Const is one constant declared for an enum type.
type Const struct {
	Src   string `json:"src"`             // expression as written
	Val   any    `json:"val"`             // JSON value
	File  int    `json:"file"`            // file it is declared in
	Group int    `json:"group"`           // 0: own declaration, n: in the n-th group
	Decoy string `json:"decoy,omitempty"` // not of the type: how it is declared instead
	Multi bool   `json:"multi,omitempty"` // shares its specification with the next constant
}

// TypeDecl is a named type.
type TypeDecl struct {
	Pkg    int      `json:"pkg"`
	File   int      `json:"file"`
	Name   string   `json:"name"`
	T      TExpr    `json:"t"`
	Alias  bool     `json:"alias,omitempty"`
	Doc    []string `json:"doc,omitempty"`
	Block  bool     `json:"block,omitempty"` // /* */ doc comment
	Flat   bool     `json:"flat,omitempty"`  // a struct on one line
	Group  int      `json:"group,omitempty"` // 0: own declaration; n: part of the n-th type group of the file
	Consts []Const  `json:"consts,omitempty"`
}

// X is an expression for an integer or a string.
type X struct {
	Form string `json:"f"`
	I    int    `json:"i,omitempty"`
	S    string `json:"s,omitempty"`
	Pkg  int    `json:"pkg,omitempty"` // for constants and variables of another package
}

// V is an expression for a value of a type.
type V struct {
	Form string `json:"f"`
	T    TExpr  `json:"t"`
	Pkg  int    `json:"pkg,omitempty"`
}

// Stmt is a statement of a handler or helper.
type Stmt struct {
	K    string `json:"k"`           // resp in bind header call ctl noise
	M    string `json:"m,omitempty"` // context method, control form, noise name
	F    string `json:"f,omitempty"` // how the result of the call is used
	St   *X     `json:"st,omitempty"`
	Str  *X     `json:"str,omitempty"`
	Val  *V     `json:"val,omitempty"`
	Fn   int    `json:"fn,omitempty"` // helper
	Args []int  `json:"args,omitempty"`
	Body []Stmt `json:"body,omitempty"`
	Else []Stmt `json:"else,omitempty"`
}

// Func is a handler or a helper.
type Func struct {
	Kind   string   `json:"kind"` // named inline factory var helper
	Pkg    int      `json:"pkg"`
	File   int      `json:"file"`
	Name   string   `json:"name"`
	Ctx    string   `json:"ctx"`
	Params int      `json:"params,omitempty"` // helper: number of other parameters
	CtxPos int      `json:"ctxPos,omitempty"` // helper: position of the context
	Form   string   `json:"form,omitempty"`   // helper: "" generic variadic
	Doc    []string `json:"doc,omitempty"`
	Block  bool     `json:"block,omitempty"`
	Body   []Stmt   `json:"body"`
	Order  []string `json:"order,omitempty"`  // helper that custom functions know: its parameters, of ctx status val str ign
	Method bool     `json:"method,omitempty"` // such a helper is a method
	Gen    bool     `json:"gen,omitempty"`    // its val parameter is of a type parameter
}

// Reg is a registered custom function.
type Reg struct {
	Names []string `json:"names"`          // the functions and context methods it handles
	Even  bool     `json:"even,omitempty"` // only calls with an even status code, if they have one
	Copy  bool     `json:"copy,omitempty"` // it returns a changed copy of the route
	Hand  string   `json:"hand,omitempty"` // it adds a response of a type it makes up: slice, map, or sliceof, mapof its value
	Err   bool     `json:"err,omitempty"`  // it fails for calls of which the function is not known, as the example of the documentation does
}

// Route registers a handler.
type Route struct {
	Method string `json:"method"`
	Path   string `json:"path"`
	Fn     int    `json:"fn"`
}

// Pkg is a package of the program; the first is main.
type Pkg struct {
	Path  string `json:"path"`
	Name  string `json:"name"`
	Style string `json:"style,omitempty"` // how it is imported: "" renamed dot
	Gin   string `json:"gin,omitempty"`   // how it imports gin: "" renamed dot
}

// Mapping is a custom type mapping.
type Mapping struct {
	Key    string `json:"key"`
	Type   string `json:"type"`
	Format string `json:"format"`
}

// Program is a whole module.
type Program struct {
	Go      string      `json:"go"`
	Mod     string      `json:"mod"`
	Pkgs    []Pkg       `json:"pkgs"`
	Types   []TypeDecl  `json:"types,omitempty"`
	Funcs   []Func      `json:"funcs"`
	Routes  []Route     `json:"routes"`
	Maps    [][]Mapping `json:"maps,omitempty"`    // each a WithCustomTypeMapping option
	Regs    []Reg       `json:"regs,omitempty"`    // custom functions in the order they are registered
	Scheme  string      `json:"scheme,omitempty"`  // how the files are named
	Decoys  []string    `json:"decoys,omitempty"`  // files that are not part of the packages
	Main    string      `json:"main,omitempty"`    // directory of the main package, where it is run
	Imports int         `json:"imports,omitempty"` // how packages are imported: 0 with as few names as possible, 1 with names, 2 as raw strings, 3 one by one
	ModAs   int         `json:"modas,omitempty"`   // spelling of the module directive
}

// Orders are the parameters of the helpers that custom functions know.
func (p *Program) Orders() map[string][]string {
	m := map[string][]string{}
	for _, f := range p.Funcs {
		if len(f.Order) > 0 {
			m[f.Name] = f.Order
		}
	}
	return m
}

// PkgPath returns the import path of a package.
func (p *Program) PkgPath(i int) string {
	if p.Pkgs[i].Path == "" {
		return p.Mod
	}
	return p.Mod + "/" + p.Pkgs[i].Path
}

func (p Program) String() string {
	b, _ := json.MarshalIndent(p, "", " ")
	return string(b)
}

// Clone makes a deep copy.
func (p Program) Clone() Program {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	var q Program
	if err := json.Unmarshal(b, &q); err != nil {
		panic(err)
	}
	return q
}

func Basic(n string) TExpr       { return TExpr{K: "basic", B: n} }
func Ext(n string) TExpr         { return TExpr{K: "ext", B: n} }
func Named(id int) TExpr         { return TExpr{K: "named", ID: id} }
func Ptr(t TExpr) TExpr          { return TExpr{K: "ptr", El: &t} }
func Slice(t TExpr) TExpr        { return TExpr{K: "slice", El: &t} }
func Array(n int, t TExpr) TExpr { return TExpr{K: "array", Len: n, El: &t} }
func Map(k, t TExpr) TExpr       { return TExpr{K: "map", Key: &k, El: &t} }
func Any() TExpr                 { return TExpr{K: "any"} }

// walkT calls f for t and all types in it.
func (t *TExpr) walk(f func(*TExpr)) {
	f(t)
	if t.Key != nil {
		t.Key.walk(f)
	}
	if t.El != nil {
		t.El.walk(f)
	}
	for i := range t.Fields {
		t.Fields[i].T.walk(f)
	}
}

// WalkStmts calls f for every statement, nested ones included.
func WalkStmts(ss []Stmt, f func(*Stmt)) {
	for i := range ss {
		f(&ss[i])
		WalkStmts(ss[i].Body, f)
		WalkStmts(ss[i].Else, f)
	}
}

// reachable marks the functions and types the routes need.
func (p *Program) reachable() (funcs, types map[int]bool) {
	funcs, types = map[int]bool{}, map[int]bool{}
	var addT func(t *TExpr)
	addT = func(t *TExpr) {
		t.walk(func(t *TExpr) {
			if t.K == "named" && !types[t.ID] {
				types[t.ID] = true
				addT(&p.Types[t.ID].T)
			}
		})
	}
	var addF func(i int)
	addF = func(i int) {
		if funcs[i] {
			return
		}
		funcs[i] = true
		WalkStmts(p.Funcs[i].Body, func(s *Stmt) {
			if s.K == "call" {
				addF(s.Fn)
			}
			if s.Val != nil {
				addT(&s.Val.T)
			}
		})
	}
	for _, r := range p.Routes {
		addF(r.Fn)
	}
	return funcs, types
}

func docLines(b *strings.Builder, indent string, doc []string, block bool) {
	if len(doc) == 0 {
		return
	}
	if block {
		fmt.Fprintf(b, "%s/*\n", indent)
		for _, l := range doc {
			fmt.Fprintf(b, "%s\n", l) // an indent would be part of the text
		}
		fmt.Fprintf(b, "%s*/\n", indent)
		return
	}
	for _, l := range doc {
		fmt.Fprintf(b, "%s// %s\n", indent, l)
	}
}
