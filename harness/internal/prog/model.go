package prog

import (
	"go/ast"
	"sort"
	"strings"

	"github.com/iancoleman/strcase"
)

// Views are the encodings a struct tag can name fields for.
var Views = []string{"header", "form", "uri", "json", "xml", "yaml"}

// viewOrder is the order in which a nested or response type falls back to other views.
var viewOrder = []string{"json", "xml", "yaml", "form", "header", "uri"}

// Ctx resolves types of a program.
type Ctx struct {
	P    *Program
	maps map[string]Mapping
}

// NewCtx prepares the model of a program.
func NewCtx(p *Program) *Ctx {
	c := &Ctx{P: p, maps: map[string]Mapping{}}
	for _, m := range []Mapping{{"time.Time", "string", "date-time"}, {"github.com/google/uuid.UUID", "string", "uuid"}} {
		c.maps[m.Key] = m
	}
	for _, opt := range p.Maps {
		for _, m := range opt {
			c.maps[m.Key] = m
		}
	}
	return c
}

// norm resolves aliases and pointers.
func (c *Ctx) norm(t TExpr) TExpr {
	for {
		switch {
		case t.K == "ptr":
			t = *t.El
		case t.K == "named" && c.P.Types[t.ID].Alias:
			t = c.P.Types[t.ID].T
		default:
			return t
		}
	}
}

// under is the underlying type, through names, aliases and pointers.
func (c *Ctx) under(t TExpr) TExpr {
	for {
		t = c.norm(t)
		if t.K != "named" {
			return t
		}
		t = c.P.Types[t.ID].T
	}
}

// TypeKey is the key of a named type in a type mapping.
func (c *Ctx) TypeKey(id int) string {
	d := c.P.Types[id]
	pkg := c.P.PkgPath(d.Pkg)
	if d.Pkg == 0 {
		pkg = "main"
	}
	return pkg + "." + d.Name
}

// supports tells whether a struct has names for a view.
func supports(t TExpr, view string) bool {
	tagged := false
	for _, f := range t.Fields {
		if !exportedOrEmbedded(f) {
			continue
		}
		for _, v := range Views {
			if _, ok := f.tag(v); ok {
				tagged = true
				if v == view {
					return true
				}
			}
		}
	}
	return !tagged
}

func exportedOrEmbedded(f Field) bool {
	return f.Embed || ast.IsExported(f.Name)
}

// resolveView is the view a type is shown in where the wanted one is only a wish.
func (c *Ctx) resolveView(t TExpr, view string) string {
	u := c.under(t)
	if u.K != "struct" || supports(u, view) {
		return view
	}
	for _, v := range viewOrder {
		if supports(u, v) {
			return v
		}
	}
	return view
}

// Prop is a property of an object schema.
type Prop struct {
	Name string
	T    TExpr
	Doc  []string
}

// fieldName is the name of a field of a struct in a view and whether it is hidden.
func fieldName(f Field, view string) (name string, hidden bool) {
	tag, ok := f.tag(view)
	if !ok {
		return f.Name, false
	}
	if tag == "-" {
		return "", true
	}
	n := strings.Split(tag, ",")[0]
	if n == "" {
		n = f.Name
	}
	return n, false
}

// props are the properties of a struct in a view that it supports, and the
// embedded structs whose properties are promoted.
func (c *Ctx) props(t TExpr, view string) (own []Prop, embedded []TExpr) {
	for _, f := range t.Fields {
		if !exportedOrEmbedded(f) {
			continue
		}
		name, hidden := fieldName(f, view)
		isStruct := c.under(f.T).K == "struct" && !c.isMapped(f.T)
		if f.Embed && !isStruct && !ast.IsExported(f.Name) {
			continue // unexported, and nothing to promote
		}
		if hidden {
			continue
		}
		if f.Embed && isStruct && name == f.Name {
			embedded = append(embedded, f.T)
			continue
		}
		own = append(own, Prop{Name: name, T: f.T, Doc: f.Doc})
	}
	return own, embedded
}

func (c *Ctx) isMapped(t TExpr) bool {
	_, ok := c.mapping(t)
	return ok
}

// mapping returns the mapping of a named or ext type.
func (c *Ctx) mapping(t TExpr) (Mapping, bool) {
	t = c.norm(t)
	key := ""
	switch t.K {
	case "named":
		key = c.TypeKey(t.ID)
	case "ext":
		switch t.B {
		case "uuid.UUID":
			key = "github.com/google/uuid.UUID"
		case "gin.H":
			key = "github.com/gin-gonic/gin.H"
		default:
			key = t.B
		}
	}
	m, ok := c.maps[key]
	return m, ok
}

// flatProps are all properties of a struct type in a view, promoted ones included.
func (c *Ctx) flatProps(t TExpr, view string) []Prop {
	view = c.resolveView(t, view)
	var out []Prop
	seenType := map[string]bool{}
	var walk func(t TExpr, view string, seen map[string]bool)
	seen := map[string]bool{}
	walk = func(t TExpr, view string, seen map[string]bool) {
		n := c.norm(t)
		if n.K == "named" {
			k := c.TypeKey(n.ID)
			if seenType[k] {
				return
			}
			seenType[k] = true
		}
		u := c.under(t)
		view = c.resolveView(u, view)
		own, emb := c.props(u, view)
		for _, p := range own {
			if !seen[p.Name] {
				seen[p.Name] = true
				out = append(out, p)
			}
		}
		for _, e := range emb {
			walk(e, view, seen)
		}
	}
	walk(t, view, seen)
	return out
}

// Shape is how a parameter or form field looks.
type Shape struct {
	Kind string // scalar array map file type
	T    TExpr
	View string
}

// PKey identifies a parameter.
type PKey struct{ Name, In string }

// ExpBody is an expected request body of one content type.
type ExpBody struct {
	Fields map[string][]Shape
	Bound  []TExpr
	View   string
}

// ExpOp is an expected operation.
type ExpOp struct {
	Method, Path string
	Resp         map[int]map[string][]Shape
	RespHeaders  map[string]bool
	Params       map[PKey][]Shape
	Required     map[PKey]bool
	Body         map[string]*ExpBody
	Doc          string
	OpID         string
	Fn           int
}

var contentTypes = map[string]string{
	"JSON": "application/json", "AbortWithStatusJSON": "application/json", "XML": "application/xml", "YAML": "application/yaml", "ProtoBuf": "application/protobuf",
}

var ctView = map[string]string{
	"application/json": "json", "application/xml": "xml", "application/yaml": "yaml", "application/x-www-form-urlencoded": "form", "multipart/form-data": "form",
}

// Expect is the model of the operation of a route.
func (c *Ctx) Expect(r Route) *ExpOp {
	op := &ExpOp{Method: strings.ToLower(r.Method), Path: OpenAPIPath(r.Path), Resp: map[int]map[string][]Shape{}, RespHeaders: map[string]bool{},
		Params: map[PKey][]Shape{}, Required: map[PKey]bool{}, Body: map[string]*ExpBody{}, Fn: r.Fn}
	fn := c.P.Funcs[r.Fn]
	if fn.Kind == "named" {
		op.Doc = DocText(fn.Doc)
		op.OpID = strcase.ToLowerCamel(fn.Name)
	}
	for _, seg := range strings.Split(r.Path, "/") {
		if i := strings.IndexAny(seg, ":*"); i >= 0 {
			k := PKey{seg[i+1:], "path"}
			op.Params[k] = append(op.Params[k], Shape{Kind: "scalar"})
			op.Required[k] = seg[i] == ':'
		}
	}
	seen := map[int]bool{}
	var add func(fn int)
	add = func(fn int) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		WalkStmts(c.P.Funcs[fn].Body, func(s *Stmt) {
			if i := c.P.handledBy(s); i >= 0 {
				c.expectCustom(op, s, i)
				return
			}
			c.expectStmt(op, s)
			if s.K == "call" && c.P.Funcs[s.Fn].followed() {
				add(s.Fn)
			}
		})
	}
	add(r.Fn)
	return op
}

func (op *ExpOp) resp(status int, ct string, s *Shape) {
	if op.Resp[status] == nil {
		op.Resp[status] = map[string][]Shape{}
	}
	if s != nil {
		op.Resp[status][ct] = append(op.Resp[status][ct], *s)
	}
}

func (op *ExpOp) body(ct string) *ExpBody {
	if op.Body[ct] == nil {
		op.Body[ct] = &ExpBody{Fields: map[string][]Shape{}, View: ctView[ct]}
	}
	return op.Body[ct]
}

func (op *ExpOp) field(ct, name string, s Shape) {
	b := op.body(ct)
	b.Fields[name] = append(b.Fields[name], s)
}

func (c *Ctx) expectStmt(op *ExpOp, s *Stmt) {
	shape := func(m string) Shape {
		switch {
		case strings.HasSuffix(m, "Array"):
			return Shape{Kind: "array"}
		case strings.HasSuffix(m, "Map"):
			return Shape{Kind: "map"}
		case m == "FormFile":
			return Shape{Kind: "file"}
		}
		return Shape{Kind: "scalar"}
	}
	switch s.K {
	case "resp":
		switch s.M {
		case "Status", "AbortWithStatus", "AbortWithError":
			op.resp(s.St.I, "", nil)
		case "String":
			op.resp(s.St.I, "text/plain", &Shape{Kind: "scalar"})
		case "Data":
			op.resp(s.St.I, s.Str.S, &Shape{Kind: "type", T: Slice(Basic("byte")), View: ctView[s.Str.S]})
		default:
			ct := contentTypes[s.M]
			op.resp(s.St.I, ct, &Shape{Kind: "type", T: s.Val.T, View: c.resolveView(s.Val.T, ctView[ct])})
		}
	case "header":
		op.RespHeaders[s.Str.S] = true
	case "in":
		name := s.Str.S
		switch {
		case s.M == "FormFile":
			op.field("multipart/form-data", name, shape(s.M))
		case s.M == "GetHeader":
			k := PKey{name, "header"}
			op.Params[k] = append(op.Params[k], shape(s.M))
		case strings.Contains(s.M, "Query"):
			k := PKey{name, "query"}
			op.Params[k] = append(op.Params[k], shape(s.M))
		default:
			op.field("application/x-www-form-urlencoded", name, shape(s.M))
		}
	case "bind":
		m := strings.TrimPrefix(s.M, "Should")
		t := s.Val.T
		spread := func(view, in string) {
			u := c.under(t)
			if u.K != "struct" || !supports(u, view) || c.isMapped(t) {
				return
			}
			for _, p := range c.flatProps(t, view) {
				k := PKey{p.Name, in}
				op.Params[k] = append(op.Params[k], Shape{Kind: "type", T: p.T, View: view})
			}
		}
		bodies := func(cts ...string) {
			for _, ct := range cts {
				u := c.under(t)
				if u.K == "struct" && !supports(u, ctView[ct]) && !c.isMapped(t) {
					continue
				}
				b := op.body(ct)
				b.Bound = append(b.Bound, t)
			}
		}
		switch m {
		case "BindJSON":
			bodies("application/json")
		case "BindXML":
			bodies("application/xml")
		case "BindYAML":
			bodies("application/yaml")
		case "BindQuery":
			spread("form", "query")
		case "BindHeader":
			spread("header", "header")
		case "Bind":
			spread("form", "query")
			bodies("application/x-www-form-urlencoded", "multipart/form-data", "application/json", "application/xml", "application/yaml")
		}
	}
}

// OpenAPIPath is the template of a gin path.
func OpenAPIPath(p string) string {
	segs := strings.Split(p, "/")
	for i, s := range segs {
		if k := strings.IndexAny(s, ":*"); k >= 0 {
			if s[k] == ':' {
				segs[i] = s[:k] + "{" + s[k+1:] + "}"
			} else {
				segs[i] = s[:k] + "{" + s[k+1:] + "*}"
			}
		}
	}
	return strings.Join(segs, "/")
}

// DocText is the normalised text of a doc comment.
func DocText(doc []string) string {
	var lines []string
	for _, l := range doc {
		lines = append(lines, strings.TrimRight(l, " \t"))
	}
	// blank lines at the ends go, several in a row are one
	var out []string
	for _, l := range lines {
		if l == "" && (len(out) == 0 || out[len(out)-1] == "") {
			continue
		}
		out = append(out, l)
	}
	return strings.TrimSpace(strings.Join(out, "\n"))
}

// EnumValues are the constants of a type, as a set per file in order.
func (d *TypeDecl) EnumValues() map[int][]any {
	m := map[int][]any{}
	// the groups are rendered in the order of their first constant
	type gk struct{ file, group int }
	groups := map[gk][]Const{}
	var order []gk
	for i, c := range d.Consts {
		k := gk{c.File, c.Group}
		if c.Group == 0 {
			k.group = -1 - i
		}
		if len(groups[k]) == 0 {
			order = append(order, k)
		}
		groups[k] = append(groups[k], c)
	}
	for _, k := range order {
		for _, c := range groups[k] {
			if c.Decoy == "" {
				m[k.file] = append(m[k.file], c.Val)
			}
		}
	}
	return m
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
