package prog

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"maps"
	"math"
	"slices"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Gen says what programs are generated.
type Gen struct {
	Pkgs     int      // most packages next to main
	Collide  bool     // packages with the same last path element, and types with the same name
	PkgForms bool     // renamed and dot imports, package names that differ from the path
	Types    int      // most types
	MinTypes int      //
	Depth    int      // of type expressions
	Recurse  bool     // recursive types
	Embed    bool     // embedded structs
	Alias    bool     // alias types
	Ext      []string // types of other modules and of the standard library
	Odd      bool     // func, chan and interface fields
	Views    []string // struct tag keys
	Options  bool     // omitempty, hidden and other forms of tags
	Enums    bool
	Docs     bool
	Handlers int
	Helpers  int
	HForms   bool // helpers that are generic or variadic, the context at any position
	Kinds    []string
	Stmts    int            // most statements of a body
	Weights  map[string]int // resp in bind header call ctl noise
	XForms   bool           // forms of status codes and names
	VForms   bool           // forms of values
	Ctl      int            // most nesting of control flow
	Noise    []string
	Methods  bool // all HTTP methods
	Maps     bool // custom type mappings
	Named    bool // only named types as bodies and responses
	TwoRoute bool // handlers with several routes
	Basics   []string
	Customs  bool // custom functions and helpers they know
}

var (
	typeNames   = []string{"User", "Order", "Item", "Node", "Page", "Result", "Meta", "Query", "Account", "Tree", "Info", "Data", "Entry", "A", "B", "HTTPThing", "Value2", "User_Name", "Größe", "Überblick"}
	fieldWords  = []string{"ID", "Name", "Count", "Items", "Parent", "URL", "Tags", "Data", "X", "UserName", "Is_ok", "Überschrift", "Größe"}
	handlerBase = []string{"überAlles", "GetUser", "listItems", "HTTPPing", "create_order", "Do", "A", "Update2FA", "ping"}
	docPool     = []string{"Returns a thing.", "It does   two things: a, b.", "TODO: more", "Ünïcödé \"quotes\" & <tags>", "- list", "", "  indented", "Deprecated: no.", "x", "a: b", "100% of 'em", "{braces} #hash", "tab\there", "* star", "/path is served", "+ plus", "*bold* text", "#heading", "[link]: x", "@param c", "1. one", "go:embed x", "~", "...", "'quoted'"}
	modules     = []string{"example.com/app", "app", "github.com/acme/my-svc", "example.com/x/v2"}
	fileSchemes = []string{"%c.go", "Handlers%c.go", "x-y.%c.go", "ü%c.go", "test_%c_linux.go", "main%c.go", "%c_main.go", "%c.pb.go", "linux%c.go"}
	decoyKinds  = []string{"ignored", "windows", "test", "xtest", "tagged", "oldtag", "methods", "locals", "samename", "foreign"}
	ctxNames    = []string{"c", "ctx", "gctx", "context", "gc", "r"}
	pathElems   = []string{"models", "api", "types", "store", "v1", "internal/core", "web", "auth"}
	allBasics   = []string{"string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool", "byte", "rune"}
	methods     = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE"}
	statuses    = []int{200, 201, 202, 204, 206, 301, 302, 304, 400, 401, 403, 404, 405, 409, 410, 412, 418, 422, 429, 451, 500, 501, 502, 503, 599, 299}
	inputCalls  = []string{"Query", "GetQuery", "QueryArray", "GetQueryArray", "QueryMap", "GetQueryMap", "PostForm", "GetPostForm", "PostFormArray", "GetPostFormArray", "PostFormMap", "GetPostFormMap", "FormFile", "GetHeader"}
	bindCalls   = []string{"Bind", "BindJSON", "BindXML", "BindYAML", "BindQuery", "BindHeader", "ShouldBind", "ShouldBindJSON", "ShouldBindXML", "ShouldBindYAML", "ShouldBindQuery", "ShouldBindHeader"}
	respCalls   = []string{"JSON", "JSON", "JSON", "XML", "YAML", "ProtoBuf", "String", "Data", "Status", "AbortWithStatus", "AbortWithStatusJSON", "AbortWithError"}
	strNames    = []string{"id", "name", "user_name", "q", "page", "X-Thing", "filter", "ids", "sort", "größe", "a.b", "a[b]", "Content"}
)

type gen struct {
	t     *rapid.T
	o     Gen
	p     *Program
	n     int
	used  map[int]map[string]int // by function: the response of each status and content type it and its helpers write
	dups  map[int][]Stmt         // by function: the responses it writes itself
	large bool
	depth int
	tabs  map[int]map[int]bool // embedded closure of types
	ctx   *Ctx
}

func (g *gen) bool(label string) bool        { return rapid.Bool().Draw(g.t, label) }
func (g *gen) int(a, b int, l string) int    { return rapid.IntRange(a, b).Draw(g.t, l) }
func (g *gen) one(of int, label string) bool { return rapid.IntRange(0, of-1).Draw(g.t, label) == 0 }

func pick[T any](g *gen, s []T, label string) T { return rapid.SampledFrom(s).Draw(g.t, label) }

// Draw is the generator of programs.
func (o Gen) Draw() *rapid.Generator[Program] {
	return rapid.Custom(func(t *rapid.T) Program {
		g := &gen{t: t, o: o, p: &Program{}, used: map[int]map[string]int{}, dups: map[int][]Stmt{}}
		if g.one(12, "big") {
			g.big()
		}
		return g.program()
	})
}

func (g *gen) next() int { g.n++; return g.n }

// big makes a program with more of everything.
func (g *gen) big() {
	g.large = true
	o := &g.o
	switch g.int(0, 3, "bigk") {
	case 0: // long bodies
		o.Stmts *= 4
		o.Handlers = min(o.Handlers, 2)
	case 1: // many types with many fields
		o.Types = o.Types*2 + 4
		o.MinTypes = o.Types / 2
	case 2: // many helpers
		if o.Helpers > 0 {
			o.Helpers += 8
			o.Stmts = min(o.Stmts, 3)
			o.Ctl = min(o.Ctl, 1)
			o.Weights = maps.Clone(o.Weights)
			o.Weights["call"] += 5
		}
	default: // many handlers
		o.Handlers = o.Handlers*2 + 4
		o.Stmts = min(o.Stmts, 4)
		o.Ctl = min(o.Ctl, 1)
	}
}

// own gives the fields of different structs the same names.
func (g *gen) share() {
	involved := map[int]bool{}
	for i, d := range g.p.Types {
		for _, f := range d.T.Fields {
			if f.Embed {
				involved[i] = true
				e := f.T
				if e.K == "ptr" {
					e = *e.El
				}
				involved[e.ID] = true
			}
		}
	}
	digits := func(s string) string {
		n, opt, ok := strings.Cut(s, ",")
		if n = strings.TrimRight(n, "0123456789"); ok {
			n += "," + opt
		}
		return n
	}
	for i := range g.p.Types {
		if involved[i] || !g.one(2, "share") {
			continue
		}
		g.p.Types[i].T.walk(func(t *TExpr) {
			if t.K != "struct" {
				return
			}
			taken := map[string]map[string]bool{}
			views := append([]string{"", "json"}, g.o.Views...)
			free := func(f Field) bool {
				for _, v := range views {
					n, hidden := fieldName(f, v)
					if !hidden && (taken[v][strings.ToLower(n)] || n == "") {
						return false
					}
				}
				return !taken["go"][f.Name]
			}
			for j := range t.Fields {
				f := &t.Fields[j]
				if s := (Field{Name: digits(f.Name), T: f.T, Tags: slices.Clone(f.Tags)}); ast.IsExported(f.Name) {
					for k, tag := range s.Tags {
						if slices.Contains(g.o.Views, tag.Key) {
							s.Tags[k].Val = digits(tag.Val)
						}
					}
					if free(s) {
						f.Name, f.Tags = s.Name, s.Tags
					}
				}
				for _, v := range views {
					if n, hidden := fieldName(*f, v); !hidden {
						if taken[v] == nil {
							taken[v] = map[string]bool{}
						}
						taken[v][strings.ToLower(n)] = true
					}
				}
				if taken["go"] == nil {
					taken["go"] = map[string]bool{}
				}
				taken["go"][f.Name] = true
			}
		})
	}
}

func (g *gen) program() Program {
	p := g.p
	p.Go = pick(g, []string{"1.21", "1.22", "1.23", "1.20", "1.23.0"}, "go")
	p.Mod = pick(g, modules, "mod")
	p.Pkgs = []Pkg{{}}
	if g.one(5, "main") {
		p.Main = pick(g, []string{"cmd/server", "zsrv", "cmd/my.app/v2"}, "maindir")
	}
	if g.one(3, "imports") {
		p.Imports = g.int(1, 3, "importstyle")
	}
	if g.one(5, "modas") {
		p.ModAs = g.int(1, 4, "modstyle")
	}
	g.packages()
	g.types()
	g.share()
	g.ctx = NewCtx(p)
	if g.o.Maps {
		g.mappings()
		g.ctx = NewCtx(p)
	}
	g.funcs()
	if g.o.Customs {
		g.regs()
	}
	g.routes()
	if g.one(3, "scheme") {
		p.Scheme = pick(g, fileSchemes, "schemek")
	}
	if g.one(4, "decoys") {
		p.Decoys = rapid.SliceOfNDistinct(rapid.SampledFrom(decoyKinds), 1, 3, rapid.ID[string]).Draw(g.t, "decoyfiles")
	}
	return *p
}

func (g *gen) packages() {
	n := g.int(0, g.o.Pkgs, "pkgs")
	names := map[string]bool{"main": true}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		el := pick(g, pathElems, "elem")
		path := el
		if g.o.Collide {
			el = strings.TrimPrefix(el, "internal/")
			if g.bool("nest") && i > 0 && p0(g.p.Pkgs[i].Path) {
				path = g.p.Pkgs[i].Path + "/" + el
			}
			if g.bool("same") {
				path = pick(g, []string{"a", "b", "a/b", "x", "b/a", "svc"}, "dir") + "/" + pick(g, []string{"models", "types", "v1"}, "last")
			}
		}
		if seen[path] {
			path = fmt.Sprintf("%s%d", path, i)
		}
		seen[path] = true
		name := path[strings.LastIndex(path, "/")+1:]
		if g.o.PkgForms && g.one(4, "named") {
			name = "pk" + strconv.Itoa(i)
		}
		if g.o.PkgForms && g.one(6, "dotted") {
			path += pick(g, []string{".v2", ".v2", "~x", "+y", "-z"}, "pathend")
		}
		if !g.o.Collide {
			for names[name] {
				name += "x"
			}
		}
		names[name] = true
		pk := Pkg{Path: path, Name: name}
		if g.o.PkgForms {
			pk.Style = pick(g, []string{"", "", "renamed", "dot"}, "style")
			pk.Gin = pick(g, []string{"", "", "renamed", "dot"}, "ginstyle")
		}
		g.p.Pkgs = append(g.p.Pkgs, pk)
	}
	if g.o.PkgForms {
		g.p.Pkgs[0].Gin = pick(g, []string{"", "", "renamed", "dot"}, "ginmain")
	}
}

func p0(s string) bool { return s != "" && strings.Count(s, "/") < 3 }

// types makes the named types; a type only refers to later ones, or to any of
// its own package through a pointer, slice or map.
func (g *gen) types() {
	n := g.int(min(g.o.MinTypes, g.o.Types), g.o.Types, "types")
	var pkgs []int
	for i := 0; i < n; i++ {
		pkgs = append(pkgs, g.int(0, len(g.p.Pkgs)-1, "tpkg"))
	}
	slices.Sort(pkgs)
	names := map[string]bool{}
	g.p.Types = make([]TypeDecl, n)
	kinds := make([]string, n)
	for i := 0; i < n; i++ {
		d := &g.p.Types[i]
		d.Pkg = pkgs[i]
		d.File = g.int(0, 2, "tfile")
		base := g.typeName(i)
		d.Name = base
		if !g.o.Collide {
			for names[d.Name] {
				d.Name = fmt.Sprintf("%s%d", base, g.next())
			}
			names[d.Name] = true
		} else {
			for names[fmt.Sprintf("%d.%s", d.Pkg, d.Name)] {
				d.Name = fmt.Sprintf("%s%d", base, g.next())
			}
			names[fmt.Sprintf("%d.%s", d.Pkg, d.Name)] = true
		}
		kinds[i] = pick(g, []string{"struct", "struct", "struct", "other", "enum", "alias"}, "tkind")
		if kinds[i] == "alias" && !g.o.Alias {
			kinds[i] = "struct"
		}
		if kinds[i] == "enum" && !g.o.Enums {
			kinds[i] = "struct"
		}
		if g.o.Depth == 0 && kinds[i] == "other" {
			kinds[i] = "struct"
		}
		d.Flat = g.one(6, "flat")
		if g.o.Docs {
			d.Doc = g.doc()
			d.Block = len(d.Doc) > 0 && g.one(4, "tblock")
			if d.Block {
				for j := range d.Doc {
					d.Doc[j] = strings.TrimSpace(d.Doc[j])
				}
			}
			if g.one(4, "tgroup") {
				d.Group = g.int(1, 2, "tg")
			}
		}
	}
	g.tabs = map[int]map[int]bool{}
	for i := n - 1; i >= 0; i-- {
		d := &g.p.Types[i]
		switch kinds[i] {
		case "struct":
			d.T = g.structType(i, true)
		case "other":
			d.T = g.typ(i, g.o.Depth, true)
			if d.T.K == "ptr" || d.T.K == "named" && g.p.Types[d.T.ID].Alias || d.T.K == "ext" {
				d.T = Slice(Basic("string"))
			}
			if d.T.K == "basic" && (d.T.B == "byte" || d.T.B == "rune") {
				d.T = Basic("int")
			}
		case "alias":
			d.Alias = true
			d.T = g.typ(i, g.o.Depth, false)
			if d.T.K == "ptr" {
				d.T = *d.T.El
			}
		case "enum":
			d.T = Basic(pick(g, []string{"string", "int", "uint8", "float64", "bool", "int64", "rune", "uint", "float32"}, "ebase"))
			if d.T.B == "rune" {
				d.T.B = "int32"
			}
			g.consts(d)
		}
	}
	if g.o.Recurse {
		for i := range g.p.Types {
			if kinds[i] != "struct" || !g.one(3, "recurse") {
				continue
			}
			var targets []int
			for j := range g.p.Types {
				if kinds[j] == "struct" && g.p.Types[j].Pkg == g.p.Types[i].Pkg {
					targets = append(targets, j)
				}
			}
			el := Named(pick(g, targets, "target"))
			var ft TExpr
			switch g.int(0, 3, "rform") {
			case 0:
				ft = Ptr(el)
			case 1:
				ft = Slice(el)
			case 2:
				ft = Map(Basic("string"), el)
			default:
				ft = Slice(Ptr(el))
			}
			f := Field{Name: g.fieldName(), T: ft}
			if len(g.p.Types[i].T.Fields) > 0 {
				f.Tags = g.tags(false, &f, len(tagsOf(g.p.Types[i].T)) > 0)
			}
			g.p.Types[i].T.Fields = append(g.p.Types[i].T.Fields, f)
		}
	}
}

// typeName draws the name of a type, often one that looks like that of an
// earlier type of the package.
func (g *gen) typeName(i int) string {
	d := g.p.Types[i]
	name := pick(g, typeNames, "tname")
	if i > 0 && g.p.Types[i-1].Pkg == d.Pkg && g.one(3, "similar") {
		o := []byte(g.p.Types[i-1].Name)
		k := g.int(1, len(o), "at")
		switch {
		case k == len(o):
			name = string(o) + pick(g, []string{"s", "Type", "_", "X"}, "suffix")
		case o[k] >= 'a' && o[k] <= 'z' || o[k] >= 'A' && o[k] <= 'Z':
			o[k] ^= 0x20
			name = string(o)
		default:
			name = "The" + string(o)
		}
	}
	if d.Pkg == 0 && len(name) > 3 && g.one(3, "unexported") {
		name = lowerFirst(name)
	}
	return name
}

func tagsOf(t TExpr) []Tag {
	var out []Tag
	for _, f := range t.Fields {
		out = append(out, f.Tags...)
	}
	return out
}

func (g *gen) fieldName() string { return fmt.Sprintf("%s%d", pick(g, fieldWords, "fword"), g.next()) }

// tags draws the tags of a field: for the first field of a tagged struct one
// of every view, so that each is supported.
func (g *gen) tags(first bool, f *Field, tagged bool) []Tag {
	if !tagged || len(g.o.Views) == 0 {
		return nil
	}
	var out []Tag
	for _, v := range g.o.Views {
		if !first && g.o.Options && g.one(5, "notag") {
			continue
		}
		name := fmt.Sprintf("%s%d", pick(g, []string{"id", "user_name", "n", "X-Y", "camelCase"}, "tname"), g.next())
		if v != "json" && g.one(3, "sametag") && len(out) > 0 && !strings.HasPrefix(out[0].Val, "-") && !strings.HasPrefix(out[0].Val, ",") {
			name = strings.Split(out[0].Val, ",")[0]
		}
		if g.o.Options && !first {
			switch g.int(0, 7, "topt") {
			case 0:
				name += ",omitempty"
			case 1:
				name = ",omitempty"
			case 2:
				name = "-"
			}
		}
		out = append(out, Tag{v, name})
	}
	if g.o.Options && g.one(4, "other") {
		out = append(out, Tag{pick(g, []string{"binding", "validate", "db", "example"}, "okey"), pick(g, []string{"required", "required,min=1", "omitempty,max=5", "x:y"}, "oval")})
		if g.bool("front") {
			out[0], out[len(out)-1] = out[len(out)-1], out[0]
		}
	}
	return out
}

// structType draws a struct; decl is false for anonymous ones.
func (g *gen) structType(id int, decl bool) TExpr {
	n := g.int(0, 4, "fields")
	if g.large && g.one(3, "many") {
		n = g.int(5, 14, "manyfields")
	}
	if !decl {
		n = g.int(0, 2, "afields")
	}
	t := TExpr{K: "struct"}
	tagged := len(g.o.Views) > 0 && g.int(0, 3, "tagged") > 0
	for i := 0; i < n; i++ {
		f := Field{Name: g.fieldName()}
		if decl && g.one(3, "flat") {
			f.T = Basic(g.basic())
			if g.bool("flatslice") {
				f.T = Slice(f.T)
			}
		} else {
			f.T = g.typ(id, g.o.Depth-1, true)
		}
		f.Tags = g.tags(i == 0, &f, tagged)
		if g.o.Docs && g.one(3, "fdoc") {
			f.Doc = []string{pick(g, docPool, "fdocline")}
			if g.bool("fdoc2") {
				f.Doc = append(f.Doc, pick(g, docPool, "fdocline2"))
			}
		}
		f.Flat = f.T.K == "struct" && g.bool("fflat")
		if g.o.Docs && g.one(6, "trail") {
			f.Trail = pick(g, docPool, "trailing")
		}
		t.Fields = append(t.Fields, f)
		if len(f.Tags) == 0 && g.one(6, "join") {
			f.Name, f.Join, f.Trail = g.fieldName(), true, ""
			t.Fields = append(t.Fields, f)
		}
	}
	if g.o.Odd && g.one(4, "odd") {
		f := Field{Name: g.fieldName(), T: TExpr{K: pick(g, []string{"func", "chan", "iface"}, "oddk")}}
		f.Tags = g.tags(n == 0, &f, tagged)
		t.Fields = append(t.Fields, f)
	}
	if g.one(5, "unexported") {
		t.Fields = append(t.Fields, Field{Name: fmt.Sprintf("hidden%d", g.next()), T: Basic("int")})
	}
	if decl && g.o.Embed && g.one(2, "embeds") {
		g.embed(id, &t)
	}
	if g.one(4, "rot") && len(t.Fields) > 1 && !tagged {
		t.Fields = append(t.Fields[1:], t.Fields[0])
	}
	return t
}

// embed adds embedded structs that share nothing with each other.
func (g *gen) embed(id int, t *TExpr) {
	mine := map[int]bool{}
	for k := g.int(1, 2, "embedn"); k > 0; k-- {
		var can []int
		for j := id + 1; j < len(g.p.Types); j++ {
			d := g.p.Types[j]
			if d.Alias || d.T.K != "struct" {
				continue
			}
			free := true
			for e := range g.closure(j) {
				free = free && !mine[e]
			}
			if free {
				can = append(can, j)
			}
		}
		if len(can) == 0 {
			return
		}
		j := pick(g, can, "embedded")
		for e := range g.closure(j) {
			mine[e] = true
		}
		f := Field{Name: g.p.Types[j].Name, Embed: true, T: Named(j)}
		dup := false
		for _, o := range t.Fields {
			dup = dup || o.Name == f.Name
		}
		if dup {
			continue
		}
		if g.bool("embedptr") {
			f.T = Ptr(f.T)
		}
		if g.bool("front") {
			t.Fields = append([]Field{f}, t.Fields...)
		} else {
			t.Fields = append(t.Fields, f)
		}
	}
	g.tabs[id] = nil
}

// closure are a struct and all it embeds.
func (g *gen) closure(id int) map[int]bool {
	m := map[int]bool{id: true}
	for _, f := range g.p.Types[id].T.Fields {
		if f.Embed {
			e := f.T
			if e.K == "ptr" {
				e = *e.El
			}
			for k := range g.closure(e.ID) {
				m[k] = true
			}
		}
	}
	return m
}

// embedded tells whether some struct embeds a type.
func (g *gen) embedded(id int) bool {
	for _, d := range g.p.Types {
		for _, f := range d.T.Fields {
			if f.Embed && (f.T.K == "named" && f.T.ID == id || f.T.K == "ptr" && f.T.El.K == "named" && f.T.El.ID == id) {
				return true
			}
		}
	}
	return false
}

func (g *gen) basic() string {
	if len(g.o.Basics) > 0 {
		return pick(g, g.o.Basics, "basic")
	}
	return pick(g, allBasics, "basic")
}

// typ draws a type that may be used in the declaration of type id (or, from
// -1-pkg, in a function of the package).
func (g *gen) typ(id, depth int, named bool) TExpr {
	if depth > 0 && g.one(2, "compound") {
		switch g.int(0, 6, "compk") {
		case 0, 1:
			return Slice(g.typ(id, depth-1, named))
		case 2:
			el := g.typ(id, depth-1, named)
			if g.one(3, "long") && g.small(el) {
				return Array(pick(g, []int{16, 100, 255, 256, 257, 300, 1000}, "length"), el)
			}
			return Array(g.int(1, 4, "len"), el)
		case 3, 4:
			return Map(g.key(id), g.typ(id, depth-1, named))
		case 5:
			return Ptr(g.typ(id, depth-1, named))
		default:
			if id >= 0 {
				return g.structType(id, false)
			}
		}
	}
	var cands []int
	pkg := -1 - id
	if id >= 0 {
		pkg = g.p.Types[id].Pkg
	}
	for j := range g.p.Types {
		if j > id && g.p.Types[j].Pkg >= pkg && g.p.Types[j].T.K != "" {
			cands = append(cands, j)
		}
	}
	k := g.int(0, 9, "leaf")
	switch {
	case k < 5 && len(cands) > 0:
		return Named(pick(g, cands, "ref"))
	case k == 5 && len(g.o.Ext) > 0:
		return Ext(pick(g, g.o.Ext, "ext"))
	case k == 6:
		return Any()
	}
	return Basic(g.basic())
}

// small tells whether a type is not an array, has none and no struct either.
func (g *gen) small(t TExpr) bool {
	ok := true
	t.walk(func(t *TExpr) {
		ok = ok && t.K != "array" && t.K != "struct" && (t.K != "named" || g.p.Types[t.ID].T.K == "basic")
	})
	return ok
}

// key draws the type of the keys of a map.
func (g *gen) key(id int) TExpr {
	if g.one(2, "named") {
		pkg, cands := -1-id, []int(nil)
		if id >= 0 {
			pkg = g.p.Types[id].Pkg
		}
		for j, d := range g.p.Types {
			if j > id && d.Pkg >= pkg && d.T.K == "basic" && strings.Contains("string int uint8", d.T.B) && (!d.Alias || id < 0) {
				cands = append(cands, j)
			}
		}
		if other := slices.DeleteFunc(slices.Clone(cands), func(j int) bool { return g.p.Types[j].Pkg == pkg }); len(other) > 0 && g.bool("far") {
			cands = other
		}
		if len(cands) > 0 {
			return Named(pick(g, cands, "keytype"))
		}
	}
	return Basic(pick(g, []string{"string", "int", "uint8"}, "key"))
}

// consts draws the constants of an enum type.
func (g *gen) consts(d *TypeDecl) {
	n := g.int(0, 6, "consts")
	if g.one(20, "many") {
		n = g.int(7, 30, "manyconsts")
	}
	for i := 0; i < n; i++ {
		c := Const{File: g.int(0, 3, "cfile")}
		if g.bool("cgroup") {
			c.Group = g.int(1, 2, "cg")
		}
		if g.one(4, "decoy") {
			c.Decoy = pick(g, []string{"untyped", "var", "conv", "local", "basic"}, "decoyk")
		} else if c.Group > 0 && g.one(4, "multi") {
			c.Multi = true
		}
		c.Src, c.Val = g.literal(d.T.B)
		d.Consts = append(d.Consts, c)
	}
}

// literal draws a literal of a basic type and its JSON value.
func (g *gen) literal(b string) (string, any) {
	switch b {
	case "string":
		s := pick(g, []string{"red", "", "a b", "é", "quote\"d", "back\\slash", "new\nline", "tab\t", "日本", "-", "null", "true", "12", "a`b", "\u2028", "😀"}, "slit")
		switch g.int(0, 3, "sform") {
		case 0:
			if !strings.ContainsAny(s, "`\r") {
				return "`" + s + "`", s
			}
		case 1:
			return strconv.QuoteToASCII(s), s
		case 2:
			if s != "" && s[0] < 0x80 && s[0] != '"' && s[0] != '\\' && s[0] >= ' ' {
				q := strconv.Quote(s)
				return fmt.Sprintf("\"\\x%02x%s", s[0], q[2:]), s
			}
		}
		return strconv.Quote(s), s
	case "bool":
		if g.bool("blit") {
			return "true", true
		}
		return "false", false
	case "float64", "float32":
		f := pick(g, []float64{0, 1.5, -2.25, 1e3, 0.125, 3, -7}, "flit")
		src := strconv.FormatFloat(f, 'f', -1, 64)
		switch g.int(0, 3, "fform") {
		case 0:
			src = strconv.FormatFloat(f, 'e', -1, 64)
		case 1:
			if f == math.Trunc(f) {
				src += ".0"
			}
		}
		return src, f
	}
	hi := map[string]int64{"int": 1 << 40, "uint8": 255, "int64": math.MaxInt64, "int32": math.MaxInt32, "uint": 1 << 31}[b]
	v := pick(g, []int64{0, 1, 2, 3, 7, 42, 100, 255, hi}, "ilit")
	neg := !strings.HasPrefix(b, "u") && g.one(4, "neg")
	val := v
	sign := ""
	if neg {
		val, sign = -v, "-"
	}
	src := strconv.FormatInt(v, 10)
	switch g.int(0, 6, "iform") {
	case 0:
		src = "0x" + strconv.FormatInt(v, 16)
	case 1:
		src = "0b" + strconv.FormatInt(v, 2)
	case 2:
		src = "0o" + strconv.FormatInt(v, 8)
	case 3:
		if len(src) > 1 {
			src = src[:1] + "_" + src[1:]
		}
	case 4:
		src = "0X" + strings.ToUpper(strconv.FormatInt(v, 16))
	case 5:
		if v >= 'a' && v < 'z' || v == 42 {
			src = "'" + string(rune(v)) + "'"
		}
	}
	return sign + src, json.Number(strconv.FormatInt(val, 10))
}

func (g *gen) doc() []string {
	if g.bool("nodoc") {
		return nil
	}
	n := g.int(1, 4, "doclines")
	if g.one(20, "long") {
		n = g.int(5, 20, "manylines")
	}
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, pick(g, docPool, "docline"))
	}
	return out
}

// mappings draws custom type mappings, for types of the program and others.
func (g *gen) mappings() {
	for k := g.int(0, 3, "maps"); k > 0; k-- {
		var opt []Mapping
		for m := g.int(1, 2, "mapn"); m > 0; m-- {
			keys := []string{"time.Time", "github.com/google/uuid.UUID", "example.com/none.Type"}
			for id, d := range g.p.Types {
				if !d.Alias && !g.embedded(id) {
					keys = append(keys, g.ctx.TypeKey(id))
				}
			}
			if len(g.p.Maps) > 0 && g.bool("again") {
				last := g.p.Maps[len(g.p.Maps)-1]
				if len(last) > 0 {
					keys = []string{last[0].Key}
				}
			}
			key := pick(g, keys, "mapkey")
			dup := false
			for _, o := range opt {
				dup = dup || o.Key == key
			}
			if dup {
				continue
			}
			tf := pick(g, [][2]string{{"string", "date"}, {"integer", "int64"}, {"number", ""}, {"boolean", ""}, {"string", ""}, {"object", "blob"}, {"string", "x-custom"}}, "maptf")
			opt = append(opt, Mapping{key, tf[0], tf[1]})
		}
		g.p.Maps = append(g.p.Maps, opt)
	}
}

// ---- functions ----

func (g *gen) funcs() {
	nh := g.int(1, max(1, g.o.Handlers), "handlers")
	ne := g.int(0, g.o.Helpers, "helpers")
	kinds := g.o.Kinds
	if len(kinds) == 0 {
		kinds = []string{"named"}
	}
	var pkgs []int
	for i := 0; i < nh+ne; i++ {
		pkgs = append(pkgs, g.int(0, len(g.p.Pkgs)-1, "fpkg"))
	}
	// handlers first, helpers after in the order of their packages
	hs := pkgs[nh:]
	slices.Sort(hs)
	for i := 0; i < nh+ne; i++ {
		f := Func{Pkg: pkgs[i], File: g.int(0, 2, "ffile"), Ctx: pick(g, ctxNames, "ctxname")}
		if i < nh {
			f.Kind = pick(g, kinds, "hkind")
			f.Name = fmt.Sprintf("%s%d", pick(g, handlerBase, "hname"), g.next())
			if f.Kind != "named" || f.Pkg > 0 {
				f.Name = upperFirst(f.Name)
			}
		} else {
			f.Kind = "helper"
			f.Name = fmt.Sprintf("Help%d", g.next())
			if g.o.HForms {
				f.Params = g.int(0, 3, "hparams")
				f.CtxPos = g.int(0, f.Params, "ctxpos")
				f.Form = pick(g, []string{"", "", "", "generic", "variadic"}, "hform")
			}
			if g.o.Customs && g.int(0, 2, "custom") > 0 {
				g.customFunc(&f)
			}
		}
		if g.o.Docs {
			f.Doc = g.doc()
			f.Block = len(f.Doc) > 0 && g.one(4, "fblock")
			if f.Block {
				for j := range f.Doc {
					f.Doc[j] = strings.TrimSpace(f.Doc[j])
				}
			}
		}
		for _, pk := range g.p.Pkgs {
			if f.Ctx == pk.Name {
				f.Ctx = "c"
			}
		}
		g.p.Funcs = append(g.p.Funcs, f)
	}
	for i := len(g.p.Funcs) - 1; i >= 0; i-- {
		if f := g.p.Funcs[i]; f.Kind == "helper" && !f.followed() {
			continue
		}
		g.p.Funcs[i].Body = g.stmts(i, g.o.Ctl)
		if len(g.p.Funcs[i].Body) == 0 && i < nh {
			if s, ok := g.stmt(i, "resp", 0); ok {
				g.p.Funcs[i].Body = []Stmt{s}
			}
		}
	}
}

func (g *gen) stmts(fn, ctl int) []Stmt {
	n := g.int(0, max(1, g.o.Stmts), "stmts")
	if ctl < g.o.Ctl {
		n = min(n, 3)
	}
	var kinds []string
	for _, k := range []string{"resp", "in", "bind", "header", "call", "ctl", "noise"} {
		for w := g.o.Weights[k]; w > 0; w-- {
			kinds = append(kinds, k)
		}
	}
	if len(kinds) == 0 {
		kinds = []string{"resp"}
	}
	var out []Stmt
	for i := 0; i < n; i++ {
		if s, ok := g.stmt(fn, pick(g, kinds, "kind"), ctl); ok {
			out = append(out, s)
		}
	}
	return out
}

func (g *gen) stmt(fn int, kind string, ctl int) (Stmt, bool) {
	f := g.p.Funcs[fn]
	switch kind {
	case "ctl":
		if ctl <= 0 {
			return Stmt{}, false
		}
		s := Stmt{K: "ctl", M: pick(g, CtlForms, "ctl")}
		s.Body = g.stmts(fn, ctl-1)
		if g.bool("else") {
			s.Else = g.stmts(fn, ctl-1)
		}
		return s, true
	case "noise":
		if len(g.o.Noise) == 0 {
			return Stmt{}, false
		}
		s := Stmt{K: "noise", M: pick(g, g.o.Noise, "noise")}
		if ctl > 0 {
			s.Body = g.stmts(fn, ctl-1)
		}
		return s, true
	case "call":
		var cands []int
		for j := fn + 1; j < len(g.p.Funcs); j++ {
			if h := g.p.Funcs[j]; h.Kind == "helper" && h.Pkg >= f.Pkg {
				cands = append(cands, j)
			}
		}
		if len(cands) == 0 {
			return Stmt{}, false
		}
		callee := pick(g, cands, "callee")
		if !g.take(fn, g.used[callee]) {
			return Stmt{}, false
		}
		s := Stmt{K: "call", Fn: callee, F: pick(g, []string{"", "cond", "discard", "go", "defer", "paren", "inst"}, "cform")}
		if h := g.p.Funcs[s.Fn]; len(h.Order) > 0 && !g.customCall(fn, &s, h) {
			return Stmt{}, false
		}
		if h := g.p.Funcs[s.Fn]; h.Form == "generic" || h.Gen {
			if s.F == "paren" {
				s.F = ""
			}
		}
		if g.p.Funcs[s.Fn].Form != "generic" && s.F == "inst" {
			s.F = ""
		}
		if s.F == "cond" && ctl > 0 {
			s.Body = g.stmts(fn, ctl-1)
		}
		return s, true
	case "header":
		return Stmt{K: "header", Str: g.str(fn, fmt.Sprintf("X-H%d", g.int(0, 5, "hname")))}, true
	case "in":
		s := Stmt{K: "in", M: pick(g, inputCalls, "in"), Str: g.str(fn, pick(g, strNames, "name"))}
		s.F = pick(g, []string{"", "cond", "arg", "lit"}, "inform")
		if s.F == "cond" && ctl > 0 {
			s.Body = g.stmts(fn, ctl-1)
		}
		return s, true
	case "bind":
		return g.bind(fn, ctl)
	}
	return g.resp(fn)
}

// take adds responses to those of a function, unless it has others of the same status and content type.
func (g *gen) take(fn int, rs map[string]int) bool {
	for k, id := range rs {
		if old, ok := g.used[fn][k]; ok && old != id {
			return false
		}
	}
	if g.used[fn] == nil {
		g.used[fn] = map[string]int{}
	}
	maps.Copy(g.used[fn], rs)
	return true
}

func (g *gen) x(fn int, forms []string) X {
	x := X{Form: "lit"}
	if g.o.XForms {
		x.Form = pick(g, forms, "xform")
	}
	if x.Form == "constPkg" || x.Form == "varPkg" {
		x.Pkg = g.int(g.p.Funcs[fn].Pkg, len(g.p.Pkgs)-1, "xpkg")
	}
	return x
}

func (g *gen) str(fn int, s string) *X {
	x := g.x(fn, StrForms)
	x.S = s
	return &x
}

func (g *gen) resp(fn int) (Stmt, bool) {
	if len(g.dups[fn]) > 0 && g.one(10, "again") { // the same response once more
		s := pick(g, g.dups[fn], "dup")
		x := g.x(fn, IntForms)
		x.I = s.St.I
		s.St = &x
		if s.Val != nil {
			v := *s.Val
			if g.o.VForms {
				v.Form = pick(g, ValForms, "vform")
			}
			s.Val = &v
		}
		return s, true
	}
	for try := 0; try < 6; try++ {
		s := Stmt{K: "resp", M: pick(g, respCalls, "resp")}
		st := pick(g, statuses, "status")
		if g.one(8, "anystatus") {
			st = g.int(100, 599, "statusn")
		}
		ct := contentTypes[s.M]
		if s.M == "Data" {
			ct = pick(g, []string{"application/octet-stream", "image/png", "text/csv", "application/json; charset=utf-8"}, "ct")
			s.Str = g.str(fn, ct)
		}
		if s.M == "String" {
			ct = "text/plain"
		}
		key := fmt.Sprintf("%d %s", st, ct)
		if _, ok := g.used[fn][key]; ok {
			continue
		}
		x := g.x(fn, IntForms)
		x.I = st
		s.St = &x
		if ct != "" && s.M != "Data" && s.M != "String" {
			v, ok := g.value(fn, ctView[ct])
			if !ok {
				continue
			}
			s.Val = &v
		}
		g.take(fn, map[string]int{key: g.next()})
		g.dups[fn] = append(g.dups[fn], s)
		return s, true
	}
	return Stmt{}, false
}

// value draws a value that can be encoded in a view.
func (g *gen) value(fn int, view string) (V, bool) {
	f := g.p.Funcs[fn]
	var t TExpr
	for try := 0; ; try++ {
		if try > 8 {
			return V{}, false
		}
		if g.o.Named || g.one(2, "named") {
			var ids []int
			for j, d := range g.p.Types {
				if d.Pkg >= f.Pkg {
					ids = append(ids, j)
				}
			}
			if len(ids) == 0 {
				if g.o.Named {
					return V{}, false
				}
				continue
			}
			t = Named(pick(g, ids, "vtype"))
		} else {
			t = g.typ(-1-f.Pkg, g.o.Depth, true)
		}
		if u := g.ctx.under(t); u.K == "struct" && view != "" && !supports(u, view) {
			continue
		}
		break
	}
	v := V{Form: "var", T: t}
	if g.o.VForms {
		v.Form = pick(g, ValForms, "vform")
	}
	low := len(g.p.Pkgs) - 1
	t.walk(func(t *TExpr) {
		if t.K == "named" {
			low = min(low, g.p.Types[t.ID].Pkg)
		}
	})
	v.Pkg = f.Pkg
	if low > f.Pkg {
		v.Pkg = g.int(f.Pkg, low, "vpkg")
	}
	return v, true
}

// flat tells whether all fields of a struct are simple enough for a parameter.
func (g *gen) flat(t TExpr, view string) bool {
	u := g.ctx.under(t)
	if u.K != "struct" || !supports(u, view) || g.ctx.isMapped(t) {
		return false
	}
	for _, f := range u.Fields {
		if eu := g.ctx.under(f.T); f.Embed && eu.K == "struct" && !g.ctx.isMapped(f.T) && !g.flat(f.T, view) {
			return false
		}
	}
	for _, p := range g.ctx.flatProps(t, view) {
		pt := g.ctx.norm(p.T)
		if pt.K == "slice" || pt.K == "array" {
			pt = g.ctx.norm(*pt.El)
		}
		u := g.ctx.under(pt)
		if _, mapped := g.ctx.mapping(pt); !mapped && (u.K != "basic") {
			return false
		}
	}
	return true
}

func (g *gen) bind(fn, ctl int) (Stmt, bool) {
	f := g.p.Funcs[fn]
	s := Stmt{K: "bind", M: pick(g, bindCalls, "bind")}
	m := strings.TrimPrefix(s.M, "Should")
	view := map[string]string{"BindJSON": "json", "BindXML": "xml", "BindYAML": "yaml", "BindQuery": "form", "BindHeader": "header"}[m]
	var ids []int
	for j, d := range g.p.Types {
		t := Named(j)
		if d.Pkg < f.Pkg {
			continue
		}
		u := g.ctx.under(t)
		switch {
		case m == "Bind":
			if u.K != "struct" || g.ctx.isMapped(t) || supports(u, "form") && !g.flat(t, "form") {
				continue
			}
		case view == "form" || view == "header":
			if !g.flat(t, view) {
				continue
			}
		default:
			if u.K == "struct" && !supports(u, view) {
				continue
			}
		}
		ids = append(ids, j)
	}
	if len(ids) == 0 {
		return Stmt{}, false
	}
	v := V{Form: "addr", T: Named(pick(g, ids, "btype")), Pkg: f.Pkg}
	if (m == "BindJSON" || m == "BindXML") && g.one(4, "bslice") {
		v.T = Slice(v.T)
	}
	if g.o.VForms {
		v.Form = pick(g, BindForms, "bform")
	}
	s.Val = &v
	s.F = pick(g, []string{"", "cond", "var"}, "bf")
	if s.F != "" && ctl > 0 {
		s.Body = g.stmts(fn, ctl-1)
	}
	return s, true
}

func (g *gen) routes() {
	n := 0
	for i, f := range g.p.Funcs {
		if f.Kind == "helper" {
			continue
		}
		k := 1
		if g.o.TwoRoute && g.one(4, "two") {
			k = 2
		}
		for ; k > 0; k-- {
			n++
			method := pick(g, methods[:4], "method")
			if g.o.Methods {
				method = pick(g, methods, "method")
			}
			path := fmt.Sprintf("/r%d", n)
			for j := g.int(0, 2, "segs"); j > 0; j-- {
				switch g.int(0, 2, "seg") {
				case 0:
					path += fmt.Sprintf("/:%s%d", pick(g, []string{"id", "name", "user_id"}, "pvar"), j)
				default:
					path += pick(g, []string{"/x", "/items", "/a-b", "/v1.0"}, "pstat")
				}
			}
			g.p.Routes = append(g.p.Routes, Route{Method: method, Path: path, Fn: i})
		}
	}
	if len(g.p.Routes) > 1 && g.bool("rev") {
		slices.Reverse(g.p.Routes)
	}
}

func upperFirst(s string) string {
	r, n := utf8.DecodeRuneInString(s)
	return string(unicode.ToUpper(r)) + s[n:]
}

func lowerFirst(s string) string {
	r, n := utf8.DecodeRuneInString(s)
	return string(unicode.ToLower(r)) + s[n:]
}
