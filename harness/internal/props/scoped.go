package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/internal/core"
	"verif/harness/internal/prog"
)

// Types that share a name without sharing a package: types declared in
// functions, which may shadow each other and those of the package, and
// instances of generic types.

// scType is a type expression.
type scType struct {
	K    string // basic, param, decl, slice, map, ptr
	Name string `json:",omitempty"` // of a basic type
	D    int    `json:",omitempty"` // declaration or type parameter
	Args []scType
	E    *scType `json:",omitempty"`
}

type scField struct {
	Name string
	T    scType
}

// scDecl is a type declaration; it marks its struct by a field of its own.
type scDecl struct {
	Pkg    int
	Name   string
	Kind   string   // struct, basic, enum, alias, list
	Under  string   // basic, enum
	Params []string // any, key
	Fields []scField
	To     scType  // alias, list
	Emb    *scType `json:",omitempty"` // struct
	Doc    bool
	Local  bool
	Late   bool // in the second file
}

// scItem is a statement.
type scItem struct {
	K      string // decl, resp, bind, block, call
	D      int
	Status int
	T      scType
	Form   string   // var, lit, ptr
	Wrap   string   // block
	Body   []scItem // block
	Fn     int      // call
}

type scFn struct {
	Pkg    int
	Name   string
	Late   bool
	Helper bool
	Items  []scItem
}

type scCase struct {
	Pkgs  int // main and others; a package imports those after it
	Same  bool
	Decls []scDecl
	Fns   []scFn
}

const scMod = "example.com/app"

// path is the path of a package.
func (c scCase) path(k int) string {
	dirs := []string{"", "models", "api/models", "shared"}
	if !c.Same {
		dirs[2] = "api/views"
	}
	if k == 0 {
		return scMod
	}
	return scMod + "/" + dirs[k]
}

func (c scCase) pkgName(k int) string {
	if k == 0 {
		return "main"
	}
	p := c.path(k)
	return p[strings.LastIndex(p, "/")+1:]
}

// expr renders a type in a package.
func (c scCase) expr(t scType, pkg int, params []string) string {
	switch t.K {
	case "basic":
		return t.Name
	case "param":
		return fmt.Sprintf("T%d", t.D)
	case "slice":
		return "[]" + c.expr(*t.E, pkg, params)
	case "array":
		return "[3]" + c.expr(*t.E, pkg, params)
	case "map":
		return "map[string]" + c.expr(*t.E, pkg, params)
	case "pmap":
		return fmt.Sprintf("map[T%d]%s", t.D, c.expr(*t.E, pkg, params))
	case "ptr":
		return "*" + c.expr(*t.E, pkg, params)
	}
	d := c.Decls[t.D]
	s := d.Name
	if d.Pkg != pkg {
		s = fmt.Sprintf("p%d.%s", d.Pkg, d.Name)
	}
	if len(t.Args) > 0 {
		var args []string
		for _, a := range t.Args {
			args = append(args, c.expr(a, pkg, params))
		}
		s += "[" + strings.Join(args, ", ") + "]"
	}
	return s
}

func (c scCase) decl(i int) []string {
	d := c.Decls[i]
	var out []string
	if d.Doc {
		out = append(out, "// "+d.Name+" is "+c.doc(i)+".")
	}
	head := "type " + d.Name
	if len(d.Params) > 0 {
		var ps []string
		for n, k := range d.Params {
			ps = append(ps, fmt.Sprintf("T%d %s", n, map[string]string{"any": "any", "key": "~string"}[k]))
		}
		head += "[" + strings.Join(ps, ", ") + "]"
	}
	switch d.Kind {
	case "alias":
		return append(out, head+" = "+c.expr(d.To, d.Pkg, d.Params))
	case "basic", "enum":
		out = append(out, head+" "+d.Under)
		if d.Kind == "enum" {
			v := fmt.Sprintf("%q", fmt.Sprintf("m%d", i))
			if d.Under == "int" {
				v = fmt.Sprint(i + 1000)
			}
			out = append(out, fmt.Sprintf("const K%d %s = %s", i, d.Name, v))
		}
		return out
	}
	if d.Kind == "list" {
		return append(out, head+" "+c.expr(d.To, d.Pkg, d.Params))
	}
	out = append(out, head+" struct {")
	if d.Emb != nil {
		out = append(out, "\t"+c.expr(*d.Emb, d.Pkg, d.Params))
	}
	for _, f := range d.Fields {
		out = append(out, "\t"+f.Name+" "+c.expr(f.T, d.Pkg, d.Params))
	}
	return append(out, fmt.Sprintf("\tMark%d bool", i), "}")
}

func (c scCase) doc(i int) string { return fmt.Sprintf("number %d of them", i) }

var scWraps = map[string][2]string{
	"block": {"{", "}"}, "if": {"if c != nil {", "}"}, "func": {"func() {", "}()"}, "for": {"for i := 0; i < 1; i++ {", "}"},
	"case": {"switch {\ncase c == nil:\ndefault:", "}"}, "go": {"defer func() {", "}()"}, "else": {"if c == nil {\n} else {", "}"},
	"select": {"select {\ndefault:", "}"}, "label": {"loop:\nfor {\n", "break loop\n}"}, "lit": {"f := func() {", "}\nf()"},
}

func (c scCase) items(items []scItem, pkg int) []string {
	var out []string
	for n, it := range items {
		switch it.K {
		case "decl":
			out = append(out, c.decl(it.D)...)
		case "resp", "bind":
			call := func(v string) string {
				if it.K == "bind" {
					return fmt.Sprintf("_ = c.ShouldBindJSON(%s)", v)
				}
				return fmt.Sprintf("c.JSON(%d, %s)", it.Status, v)
			}
			e := c.expr(it.T, pkg, nil)
			v := fmt.Sprintf("v%d_%d", it.Status, n)
			if it.K == "bind" {
				out = append(out, "var "+v+" "+e, call("&"+v))
				continue
			}
			switch it.Form {
			case "lit":
				out = append(out, call(e+"{}"))
			case "short":
				out = append(out, v+" := "+e+"{}", call(v))
			case "conv":
				out = append(out, call(fmt.Sprintf("(%s)(%s)", e, "*new("+e+")")))
			default:
				out = append(out, "var "+v+" "+e, call(v))
			}
		case "block":
			w := scWraps[it.Wrap]
			b := c.items(it.Body, pkg)
			if it.Wrap == "lit" {
				w = [2]string{strings.Replace(w[0], "f :=", fmt.Sprintf("f%d :=", n), 1), strings.Replace(w[1], "f()", fmt.Sprintf("f%d()", n), 1)}
			}
			if it.Wrap == "label" {
				l := fmt.Sprintf("loop%d", n)
				if it.Status > 0 {
					l = fmt.Sprintf("loop%d_%d", it.Status, n)
				}
				w = [2]string{strings.ReplaceAll(w[0], "loop", l), strings.ReplaceAll(w[1], "loop", l)}
			}
			out = append(out, w[0])
			out = append(out, b...)
			out = append(out, w[1])
		case "call":
			out = append(out, c.Fns[it.Fn].Name+"(c)")
		}
	}
	return out
}

// files renders the program and its routes.
func (c scCase) files() (map[string]string, []prog.JobRoute) {
	files := map[string]string{}
	lines := map[int]int{}
	at := map[int]string{}
	for k := 0; k < c.Pkgs; k++ {
		for _, late := range []bool{false, true} {
			name := strings.TrimPrefix(strings.TrimPrefix(c.path(k), scMod), "/")
			file := map[bool]string{false: "a.go", true: "b.go"}[late]
			if name != "" {
				file = name + "/" + file
			}
			out := []string{"package " + c.pkgName(k), "", "import ("}
			out = append(out, "\t\"github.com/gin-gonic/gin\"")
			for o := k + 1; o < c.Pkgs; o++ {
				out = append(out, fmt.Sprintf("\tp%d %q", o, c.path(o)))
			}
			out = append(out, ")", "")
			out = append(out, "var _ gin.HandlerFunc")
			for o := k + 1; o < c.Pkgs; o++ {
				out = append(out, fmt.Sprintf("var _ = p%d.Used", o))
			}
			if !late {
				out = append(out, "const Used = 1")
				if k == 0 {
					out = append(out, "func main() {}")
				}
			}
			for i, d := range c.Decls {
				if d.Pkg == k && !d.Local && d.Late == late {
					out = append(out, "")
					out = append(out, c.decl(i)...)
				}
			}
			for i, f := range c.Fns {
				if f.Pkg != k || f.Late != late {
					continue
				}
				out = append(out, "")
				at[i], lines[i] = file, len(strings.Split(strings.Join(out, "\n"), "\n"))+1
				out = append(out, "func "+f.Name+"(c *gin.Context) {")
				out = append(out, c.items(f.Items, k)...)
				out = append(out, "}")
			}
			files[file] = strings.Join(out, "\n") + "\n"
		}
	}
	var routes []prog.JobRoute
	for i, f := range c.Fns {
		if f.Helper {
			continue
		}
		p := c.path(f.Pkg)
		if f.Pkg == 0 {
			p = "main"
		}
		routes = append(routes, prog.JobRoute{Method: "POST", Path: fmt.Sprintf("/r%d", i), Handler: p + "." + f.Name, File: at[i], Line: lines[i]})
	}
	return files, routes
}

// String is what the case looks like.
func (c scCase) String() string {
	files, _ := c.files()
	var b strings.Builder
	for _, f := range core.SortedKeys(files) {
		fmt.Fprintf(&b, "-- %s --\n%s", f, files[f])
	}
	return b.String()
}

// mentions tells whether a declaration is part of a type expression.
func (c scCase) mentions(t scType, d int) bool {
	if t.K == "decl" && (t.D == d || c.Decls[t.D].Kind == "alias" && c.mentions(c.Decls[t.D].To, d)) || t.E != nil && c.mentions(*t.E, d) {
		return true
	}
	for _, a := range t.Args {
		if c.mentions(a, d) {
			return true
		}
	}
	return false
}

// scScope are the visible declarations of names.
type scScope []map[string]int

func (s scScope) find(name string) (int, bool) {
	for i := len(s) - 1; i >= 0; i-- {
		if d, ok := s[i][name]; ok {
			return d, true
		}
	}
	return 0, false
}

// pkgScope are the declarations of a package.
func (c scCase) pkgScope(pkg int) map[string]int {
	m := map[string]int{}
	for i, d := range c.Decls {
		if d.Pkg == pkg && !d.Local {
			m[d.Name] = i
		}
	}
	return m
}

// valid tells whether the type means the same where it is written.
func (c scCase) valid(t scType, pkg int, s scScope) bool {
	switch t.K {
	case "basic", "param":
		return true
	case "decl":
		if t.D >= len(c.Decls) {
			return false
		}
		d := c.Decls[t.D]
		if len(d.Params) != len(t.Args) {
			return false
		}
		for _, a := range t.Args {
			if !c.valid(a, pkg, s) {
				return false
			}
		}
		if d.Pkg != pkg {
			return d.Pkg > pkg && !d.Local
		}
		i, ok := s.find(d.Name)
		return ok && i == t.D
	}
	return c.valid(*t.E, pkg, s)
}

func (c scCase) validDecl(i int, s scScope) bool {
	d := c.Decls[i]
	if d.Kind == "alias" || d.Kind == "list" {
		return c.valid(d.To, d.Pkg, s)
	}
	if d.Emb != nil && !c.valid(*d.Emb, d.Pkg, s) {
		return false
	}
	for _, f := range d.Fields {
		if !c.valid(f.T, d.Pkg, s) {
			return false
		}
	}
	return true
}

func (c scCase) validItems(items []scItem, pkg int, s scScope) bool {
	s = append(slices.Clone(s), map[string]int{})
	for _, it := range items {
		switch it.K {
		case "decl":
			if it.D >= len(c.Decls) || c.Decls[it.D].Pkg != pkg {
				return false
			}
			d := c.Decls[it.D]
			s[len(s)-1][d.Name] = it.D
			if !c.validDecl(it.D, s) {
				return false
			}
		case "resp", "bind":
			if !c.valid(it.T, pkg, s) {
				return false
			}
		case "block":
			if !c.validItems(it.Body, pkg, s) {
				return false
			}
		case "call":
			if it.Fn >= len(c.Fns) || c.Fns[it.Fn].Pkg != pkg || !c.Fns[it.Fn].Helper {
				return false
			}
		}
	}
	return true
}

// ok tells whether all names mean what they should.
func (c scCase) ok() bool {
	for i, d := range c.Decls {
		if !d.Local && !c.validDecl(i, scScope{c.pkgScope(d.Pkg)}) {
			return false
		}
	}
	handlers := 0
	for _, f := range c.Fns {
		if !f.Helper {
			handlers++
		}
		if !c.validItems(f.Items, f.Pkg, scScope{c.pkgScope(f.Pkg)}) {
			return false
		}
	}
	return handlers > 0
}

// canon is the identity of a type.
func (c scCase) canon(t scType) string {
	switch t.K {
	case "basic":
		return t.Name
	case "decl":
		if d := c.Decls[t.D]; d.Kind == "alias" {
			return c.canon(d.To)
		}
		s := fmt.Sprintf("%s#%d", c.Decls[t.D].Name, t.D)
		for _, a := range t.Args {
			s += "<" + c.canon(a) + ">"
		}
		return s
	}
	return t.K + "(" + c.canon(*t.E) + ")"
}

// subst puts the arguments in place of the parameters.
func subst(t scType, args []scType) scType {
	switch t.K {
	case "param":
		return args[t.D]
	case "pmap":
		e := subst(*t.E, args)
		return scType{K: "map", E: &e}
	}
	if t.E != nil {
		e := subst(*t.E, args)
		t.E = &e
	}
	if len(t.Args) > 0 {
		as := make([]scType, len(t.Args))
		for i, a := range t.Args {
			as[i] = subst(a, args)
		}
		t.Args = as
	}
	return t
}

// scWalk compares a document with a case.
type scWalk struct {
	c       scCase
	schemas map[string]any
	name    map[string]string // canon -> component
	owner   map[string]string
}

func (w *scWalk) check(what string, t scType, sv any) error {
	s, ok := sv.(map[string]any)
	if !ok {
		return fmt.Errorf("%s has no schema", what)
	}
	bad := func(want string) error { return fmt.Errorf("%s is %s instead of %s", what, clip(js(s)), want) }
	switch t.K {
	case "ptr":
		return w.check(what, *t.E, sv)
	case "basic":
		want := map[string]string{"string": "string", "int": "integer", "bool": "boolean", "float64": "number"}[t.Name]
		if s["type"] != want {
			return bad("a " + want)
		}
		return nil
	case "slice", "array":
		if s["type"] != "array" {
			return bad("an array")
		}
		return w.check(what+"[]", *t.E, s["items"])
	case "map":
		if s["type"] != "object" {
			return bad("an object")
		}
		return w.check(what+"[*]", *t.E, s["additionalProperties"])
	}
	d := w.c.Decls[t.D]
	if d.Kind == "alias" {
		return w.check(what, d.To, sv)
	}
	id := w.c.canon(t)
	ref, ok := s["$ref"].(string)
	if !ok {
		return bad("a reference to " + id)
	}
	name := strings.TrimPrefix(ref, "#/components/schemas/")
	if o, ok := w.owner[name]; ok && o != id {
		return fmt.Errorf("%s: the component %s is %s and also %s", what, name, o, id)
	}
	if n, ok := w.name[id]; ok {
		if n != name {
			return fmt.Errorf("%s: %s is called %s and also %s", what, id, n, name)
		}
		return nil
	}
	w.name[id], w.owner[name] = name, id
	target, ok := w.schemas[name].(map[string]any)
	if !ok {
		return fmt.Errorf("%s: there is no component %s", what, name)
	}
	doc, _ := target["description"].(string)
	if d.Doc && !d.Local {
		if !strings.Contains(doc, w.c.doc(t.D)) {
			return fmt.Errorf("%s: the component %s of %s is described as %q", what, name, id, doc)
		}
	} else if doc != "" && !d.Local {
		return fmt.Errorf("%s: the component %s of %s, which has no doc, is described as %q", what, name, id, doc)
	} else if doc != "" && !strings.Contains(doc, w.c.doc(t.D)) {
		return fmt.Errorf("%s: the component %s of %s has the description %q of another type", what, name, id, doc)
	}
	switch d.Kind {
	case "basic", "enum":
		want := map[string]string{"string": "string", "int": "integer"}[d.Under]
		if target["type"] != want {
			return fmt.Errorf("%s: the component %s of %s is %s", what, name, id, clip(js(target)))
		}
		enum := "null"
		if d.Kind == "enum" {
			enum = fmt.Sprintf("[\"m%d\"]", t.D)
			if d.Under == "int" {
				enum = fmt.Sprintf("[%d]", t.D+1000)
			}
		}
		if got := js(target["enum"]); got != enum {
			return fmt.Errorf("%s: the enum of the component %s of %s is %s instead of %s", what, name, id, got, enum)
		}
		return nil
	}
	if d.Kind == "list" {
		return w.check(what+"("+name+")", subst(d.To, t.Args), target)
	}
	props := map[string]any{}
	var refs []any
	parts, _ := target["allOf"].([]any)
	for _, p := range append([]any{target}, parts...) {
		m, _ := p.(map[string]any)
		if m["$ref"] != nil {
			refs = append(refs, m)
		}
		own, _ := m["properties"].(map[string]any)
		for k, v := range own {
			props[k] = v
		}
	}
	if d.Emb == nil && len(refs) > 0 || d.Emb != nil && len(refs) != 1 {
		return fmt.Errorf("%s: the component %s of %s includes %v", what, name, id, refs)
	}
	if d.Emb != nil {
		if err := w.check(what+" embedded", subst(*d.Emb, t.Args), refs[0]); err != nil {
			return err
		}
	}
	want := map[string]scType{fmt.Sprintf("Mark%d", t.D): {K: "basic", Name: "bool"}}
	for _, f := range d.Fields {
		want[f.Name] = subst(f.T, t.Args)
	}
	if a, b := fmt.Sprint(core.SortedKeys(props)), fmt.Sprint(core.SortedKeys(want)); a != b {
		return fmt.Errorf("%s: the component %s of %s has the properties %v instead of %v", what, name, id, a, b)
	}
	for _, f := range core.SortedKeys(want) {
		if err := w.check(what+"."+f, want[f], props[f]); err != nil {
			return err
		}
	}
	return nil
}

// resps are the responses and bodies of a function.
func (c scCase) resps(items []scItem, out *[]scItem) {
	for _, it := range items {
		switch it.K {
		case "resp", "bind":
			*out = append(*out, it)
		case "block":
			c.resps(it.Body, out)
		case "call":
			c.resps(c.Fns[it.Fn].Items, out)
		}
	}
}

func (c scCase) run(r *core.Run) error {
	e := env(r)
	dir := e.Dir()
	files, routes := c.files()
	for name, text := range files {
		f := filepath.Join(dir, name)
		must(os.MkdirAll(filepath.Dir(f), 0o755))
		must(os.WriteFile(f, []byte(text), 0o644))
	}
	must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte(e.GoMod(&prog.Program{Mod: scMod, Go: "1.21"})), 0o644))
	err := c.verdict(r, dir, routes)
	if err != nil || os.Getenv("VERIF_COMPILE") != "" {
		if cerr := e.Compiles(dir); cerr != nil {
			if os.Getenv("VERIF_COMPILE") != "" {
				core.Infraf("generated program does not compile: %v\n%s", cerr, c)
			}
			core.Discardf("generated program does not compile: %v", cerr)
		}
	}
	e.Remove(dir)
	return err
}

func (c scCase) verdict(r *core.Run, dir string, routes []prog.JobRoute) error {
	job := prog.Job{Dir: dir, Routes: routes, Config: prog.DefaultConfig(), Outs: []prog.Out{{Mode: "openapi", Path: "o.json"}, {Mode: "openapi", Path: "o.yaml"}}}
	if err := runJobs(r, job); err != nil {
		return err
	}
	raw, err := os.ReadFile(filepath.Join(dir, "o.json"))
	if err != nil {
		return err
	}
	doc, err := decodeJSON(raw)
	if err != nil {
		return err
	}
	comps, _ := doc["components"].(map[string]any)
	schemas, _ := comps["schemas"].(map[string]any)
	if err := refsResolve(doc, schemas); err != nil {
		return err
	}
	for _, n := range core.SortedKeys(schemas) {
		if strings.Trim(n, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-") != "" {
			return fmt.Errorf("the component name %q is not one of OpenAPI's", n)
		}
	}
	w := &scWalk{c: c, schemas: schemas, name: map[string]string{}, owner: map[string]string{}}
	for i, f := range c.Fns {
		if f.Helper {
			continue
		}
		op := operation(doc, fmt.Sprintf("/r%d", i), "POST")
		if op == nil {
			return fmt.Errorf("route /r%d of %s has no operation", i, f.Name)
		}
		var rs []scItem
		c.resps(f.Items, &rs)
		want := map[string]bool{}
		for _, it := range rs {
			if it.K == "bind" {
				if err := w.check(fmt.Sprintf("the body of /r%d", i), it.T, dig(op, "requestBody", "content", "application/json", "schema")); err != nil {
					return err
				}
				continue
			}
			want[fmt.Sprint(it.Status)] = true
			if err := w.check(fmt.Sprintf("response %d of /r%d", it.Status, i), it.T, dig(op, "responses", fmt.Sprint(it.Status), "content", "application/json", "schema")); err != nil {
				return err
			}
		}
		got, _ := dig(op, "responses").(map[string]any)
		if a, b := fmt.Sprint(core.SortedKeys(got)), fmt.Sprint(core.SortedKeys(want)); a != b {
			return fmt.Errorf("/r%d has the responses %s instead of %s", i, a, b)
		}
	}
	return nil
}

// shrink removes what it can.
func (c scCase) shrink(fails func(scCase) bool) scCase {
	for again := true; again; {
		again = false
		try := func(f func(n *scCase) bool) {
			n := c.clone()
			if f(&n) && n.ok() && fails(n) {
				c, again = n, true
			}
		}
		for i := len(c.Fns) - 1; i >= 0; i-- {
			try(func(n *scCase) bool {
				n.Fns[i].Items = nil
				return len(c.Fns[i].Items) > 0
			})
			try(func(n *scCase) bool { return i < len(n.Fns) && n.dropFn(i) })
		}
		for i := range c.Fns {
			for n := countItems(c.Fns[i].Items) - 1; n >= 0; n-- {
				try(func(k *scCase) bool {
					m := n
					return editItems(&k.Fns[i].Items, &m, func(it scItem) []scItem { return nil })
				})
				try(func(k *scCase) bool {
					m, did := n, false
					editItems(&k.Fns[i].Items, &m, func(it scItem) []scItem {
						if it.K == "block" {
							did = true
							return it.Body
						}
						return []scItem{it}
					})
					return did
				})
			}
		}
		for i := range c.Decls {
			if c.Decls[i].Emb != nil {
				try(func(n *scCase) bool { n.Decls[i].Emb = nil; return true })
			}
			for f := len(c.Decls[i].Fields) - 1; f >= 0; f-- {
				try(func(n *scCase) bool {
					n.Decls[i].Fields = slices.Delete(n.Decls[i].Fields, f, f+1)
					return true
				})
			}
		}
		for i := len(c.Decls) - 1; i >= 0; i-- {
			try(func(n *scCase) bool { return i < len(n.Decls) && n.dropDecl(i) })
		}
		for c.Pkgs > 1 {
			before := c.Pkgs
			try(func(n *scCase) bool {
				for _, d := range n.Decls {
					if d.Pkg == n.Pkgs-1 {
						return false
					}
				}
				for _, f := range n.Fns {
					if f.Pkg == n.Pkgs-1 {
						return false
					}
				}
				n.Pkgs--
				return true
			})
			if c.Pkgs == before {
				break
			}
		}
	}
	return c
}

func (c scCase) clone() scCase {
	var n scCase
	b, err := json.Marshal(c)
	must(err)
	must(json.Unmarshal(b, &n))
	return n
}

func countItems(items []scItem) int {
	n := len(items)
	for _, it := range items {
		n += countItems(it.Body)
	}
	return n
}

// editItems replaces the n-th item.
func editItems(items *[]scItem, n *int, f func(scItem) []scItem) bool {
	for i := range *items {
		if *n == 0 {
			*n--
			*items = slices.Replace(*items, i, i+1, f((*items)[i])...)
			return true
		}
		*n--
		if editItems(&(*items)[i].Body, n, f) {
			return true
		}
	}
	return false
}

// dropFn removes a function that nothing calls.
func (c *scCase) dropFn(i int) bool {
	ok := true
	var fix func(items []scItem)
	fix = func(items []scItem) {
		for k := range items {
			fix(items[k].Body)
			if items[k].K != "call" {
				continue
			}
			if items[k].Fn == i {
				ok = false
			} else if items[k].Fn > i {
				items[k].Fn--
			}
		}
	}
	c.Fns = slices.Delete(c.Fns, i, i+1)
	for _, f := range c.Fns {
		fix(f.Items)
	}
	return ok
}

// dropDecl removes a declaration that nothing refers to.
func (c *scCase) dropDecl(i int) bool {
	ok := true
	var fixT func(t *scType)
	fixT = func(t *scType) {
		if t.K == "decl" {
			if t.D == i {
				ok = false
			} else if t.D > i {
				t.D--
			}
		}
		for k := range t.Args {
			fixT(&t.Args[k])
		}
		if t.E != nil {
			fixT(t.E)
		}
	}
	var fix func(items []scItem) []scItem
	fix = func(items []scItem) []scItem {
		for k := range items {
			items[k].Body = fix(items[k].Body)
			fixT(&items[k].T)
			if items[k].K == "decl" {
				if items[k].D == i {
					ok = false
				} else if items[k].D > i {
					items[k].D--
				}
			}
		}
		return items
	}
	c.Decls = slices.Delete(c.Decls, i, i+1)
	for k := range c.Decls {
		for f := range c.Decls[k].Fields {
			fixT(&c.Decls[k].Fields[f].T)
		}
		fixT(&c.Decls[k].To)
		if c.Decls[k].Emb != nil {
			fixT(c.Decls[k].Emb)
		}
	}
	for k := range c.Fns {
		c.Fns[k].Items = fix(c.Fns[k].Items)
	}
	return ok
}

var genScoped = rapid.Custom(func(t *rapid.T) scCase {
	c := scCase{Pkgs: rapid.IntRange(1, 4).Draw(t, "pkgs"), Same: rapid.Bool().Draw(t, "same")}
	names := []string{"Resp", "User", "Page", "Out", "resp", "Resp_2"}
	pick := func(w string, s ...string) string { return rapid.SampledFrom(s).Draw(t, w) }
	chance := func(n int, w string) bool { return rapid.IntRange(0, n).Draw(t, w) == 0 }

	// visible are the declarations that can be named in a package
	visible := func(pkg int, s scScope) []int {
		var out []int
		for i, d := range c.Decls {
			if d.Pkg > pkg && !d.Local && d.Name[0] < 'a' {
				out = append(out, i)
			} else if n, ok := s.find(d.Name); d.Pkg == pkg && ok && n == i {
				out = append(out, i)
			}
		}
		return out
	}
	var expr func(pkg int, s scScope, depth, self int, params []string) scType
	arg := func(pkg int, s scScope, depth int, params []string, kind string) scType {
		if kind == "key" {
			for n, k := range params {
				if k == "key" && chance(1, "keyparam") {
					return scType{K: "param", D: n}
				}
			}
			return scType{K: "basic", Name: "string"}
		}
		return expr(pkg, s, depth-1, -1, params)
	}
	// self is the declaration that the type is a part of: it must be behind a pointer or the like
	expr = func(pkg int, s scScope, depth, self int, params []string) scType {
		kinds := []string{"basic", "decl", "decl", "decl"}
		if depth > 0 {
			kinds = append(kinds, "slice", "map", "ptr", "array")
		}
		var any []int
		for n, k := range params {
			if k == "any" {
				any = append(any, n)
			}
		}
		if len(any) > 0 {
			kinds = append(kinds, "param", "param")
		}
		switch k := pick("kind", kinds...); k {
		case "param":
			return scType{K: "param", D: rapid.SampledFrom(any).Draw(t, "param")}
		case "slice", "map", "ptr", "array":
			e := expr(pkg, s, depth-1, map[bool]int{true: self, false: -1}[k == "array"], params)
			if k == "ptr" && e.K == "ptr" || k == "ptr" && e.K == "basic" {
				return e
			}
			return scType{K: k, E: &e}
		case "decl":
			if self >= 0 { // not directly
				break
			}
			var can []int
			for _, i := range visible(pkg, s) {
				// no infinite instantiation
				if len(c.Decls[i].Params) == 0 || depth > 0 && len(params) == 0 || depth > 0 && !c.Decls[i].Local && i < len(c.Decls)-1 {
					can = append(can, i)
				}
			}
			if len(can) == 0 {
				break
			}
			i := rapid.SampledFrom(can).Draw(t, "decl")
			te := scType{K: "decl", D: i}
			for _, p := range c.Decls[i].Params {
				te.Args = append(te.Args, arg(pkg, s, depth, params, p))
			}
			return te
		}
		return scType{K: "basic", Name: pick("basic", "string", "int", "bool", "float64")}
	}
	fields := func(i int, s scScope) []scField {
		d := c.Decls[i]
		var out []scField
		for n := rapid.IntRange(0, 3).Draw(t, "fields"); n > 0; n-- {
			f := scField{Name: fmt.Sprintf("F%d_%d", n, i)}
			switch {
			case len(d.Params) > 0 && chance(4, "selfinst"):
				te := scType{K: "decl", D: i}
				for p := range d.Params {
					te.Args = append(te.Args, scType{K: "param", D: p})
				}
				f.T = scType{K: pick("in", "ptr", "slice", "map"), E: &te}
			case slices.Contains(d.Params, "key") && chance(2, "pmap"):
				e := scType{K: "basic", Name: "int"}
				for p, k := range d.Params {
					if k == "any" {
						e = scType{K: "param", D: p}
					}
				}
				f.T = scType{K: "pmap", D: slices.Index(d.Params, "key"), E: &e}
			default:
				f.T = expr(d.Pkg, s, 2, i, d.Params)
			}
			out = append(out, f)
		}
		return out
	}
	embed := func(i int, s scScope) *scType {
		d := c.Decls[i]
		if !chance(3, "embed") {
			return nil
		}
		var can []int
		for _, n := range visible(d.Pkg, s) {
			if k := c.Decls[n]; n != i && k.Kind == "struct" && (!k.Local || len(d.Params) == 0) {
				can = append(can, n)
			}
		}
		if len(can) == 0 {
			return nil
		}
		te := scType{K: "decl", D: rapid.SampledFrom(can).Draw(t, "emb")}
		for _, p := range c.Decls[te.D].Params {
			te.Args = append(te.Args, arg(d.Pkg, s, 1, d.Params, p))
		}
		if c.mentions(te, i) {
			return nil
		}
		if chance(2, "embptr") {
			return &scType{K: "ptr", E: &te}
		}
		return &te
	}
	// declarations of packages, the last package first
	for pkg := c.Pkgs - 1; pkg >= 0; pkg-- {
		used := map[string]bool{}
		for n := rapid.IntRange(0, 4).Draw(t, "decls"); n > 0; n-- {
			name := pick("name", names...)
			if used[name] || used["T"+name] {
				continue
			}
			used[name] = true
			d := scDecl{Pkg: pkg, Name: name, Kind: pick("dk", "struct", "struct", "generic", "generic", "basic", "enum", "list"), Doc: rapid.Bool().Draw(t, "doc"), Late: rapid.Bool().Draw(t, "late")}
			switch d.Kind {
			case "basic", "enum":
				d.Under = pick("under", "string", "int")
			case "generic":
				d.Kind = "struct"
				d.Params = rapid.SampledFrom([][]string{{"any"}, {"any"}, {"any", "any"}, {"key", "any"}, {"key"}}).Draw(t, "params")
			}
			if d.Kind == "list" {
				if rapid.Bool().Draw(t, "listgen") {
					d.Params = []string{"any"}
				}
				e := expr(pkg, scScope{c.pkgScope(pkg)}, 1, -1, d.Params)
				d.To = scType{K: pick("lk", "slice", "map"), E: &e}
			}
			c.Decls = append(c.Decls, d)
			if i := len(c.Decls) - 1; d.Kind == "struct" {
				c.Decls[i].Fields = fields(i, scScope{c.pkgScope(pkg)})
				c.Decls[i].Emb = embed(i, scScope{c.pkgScope(pkg)})
			}
		}
	}
	status := 200
	var items func(f *scFn, s scScope, depth int, helpers []int) []scItem
	bound := false
	items = func(f *scFn, s scScope, depth int, helpers []int) []scItem {
		s = append(slices.Clone(s), map[string]int{})
		var out []scItem
		for n := rapid.IntRange(1, 5).Draw(t, "items"); n > 0; n-- {
			kinds := []string{"decl", "decl", "resp", "resp", "resp", "bind"}
			if depth > 0 {
				kinds = append(kinds, "block", "block")
			}
			if len(helpers) > 0 {
				kinds = append(kinds, "call")
			}
			switch k := pick("item", kinds...); k {
			case "decl":
				name := pick("name", names...)
				if _, ok := s[len(s)-1][name]; ok {
					continue
				}
				d := scDecl{Pkg: f.Pkg, Name: name, Kind: pick("lk", "struct", "struct", "struct", "basic", "alias"), Local: true, Doc: rapid.Bool().Draw(t, "doc")}
				switch d.Kind {
				case "basic":
					d.Under = pick("under", "string", "int")
				case "alias": // its scope begins before what it is declared as
					d.To = expr(f.Pkg, s, 1, -1, nil)
					in := append(slices.Clone(s), map[string]int{name: -1})
					if !c.valid(d.To, f.Pkg, in) {
						d.To = scType{K: "basic", Name: "int"}
					}
				}
				c.Decls = append(c.Decls, d)
				i := len(c.Decls) - 1
				s[len(s)-1][name] = i
				if d.Kind == "struct" {
					c.Decls[i].Fields = fields(i, s)
					c.Decls[i].Emb = embed(i, s)
				}
				out = append(out, scItem{K: "decl", D: i})
			case "resp", "bind":
				if k == "bind" && (bound || f.Helper) {
					continue
				}
				it := scItem{K: k, Status: status, T: expr(f.Pkg, s, 2, -1, nil), Form: pick("form", "var", "var", "lit", "short", "conv")}
				if k == "bind" {
					bound = true
				} else if c.composite(it.T) == false && (it.Form == "lit" || it.Form == "short") || it.T.K == "ptr" {
					it.Form = "var"
				}
				status++
				out = append(out, it)
			case "block":
				status++
				out = append(out, scItem{K: "block", Status: status, Wrap: pick("wrap", core.SortedKeys(scWraps)...), Body: items(f, s, depth-1, helpers)})
			case "call":
				h := rapid.SampledFrom(helpers).Draw(t, "helper")
				out = append(out, scItem{K: "call", Fn: h})
			}
		}
		return out
	}
	for n := rapid.IntRange(1, 4).Draw(t, "fns"); n > 0; n-- {
		f := scFn{Pkg: rapid.IntRange(0, c.Pkgs-1).Draw(t, "pkg"), Late: rapid.Bool().Draw(t, "late"), Name: fmt.Sprintf("H%d", n)}
		f.Helper = len(c.Fns) < 2 && n > 1 && chance(2, "helper")
		var helpers []int
		for i, h := range c.Fns {
			if h.Helper && h.Pkg == f.Pkg && !f.Helper {
				helpers = append(helpers, i)
			}
		}
		bound = false
		f.Items = items(&f, scScope{c.pkgScope(f.Pkg)}, 2, helpers)
		c.Fns = append(c.Fns, f)
	}
	return c
})

// composite tells whether a type has composite literals.
func (c scCase) composite(t scType) bool {
	switch t.K {
	case "slice", "map", "array":
		return true
	case "decl":
		d := c.Decls[t.D]
		if d.Kind == "alias" {
			return c.composite(d.To)
		}
		return d.Kind == "struct" || d.Kind == "list"
	}
	return false
}

// shared tells whether two types that are used have the same name and package.
func (c scCase) shared() bool {
	seen := map[string]string{}
	dup := false
	var walk func(t scType)
	walk = func(t scType) {
		for _, a := range t.Args {
			walk(a)
		}
		if t.E != nil {
			walk(*t.E)
		}
		if t.K == "decl" {
			d := c.Decls[t.D]
			if d.Kind == "alias" {
				walk(d.To)
				return
			}
			k := fmt.Sprint(d.Pkg, d.Name)
			if o, ok := seen[k]; ok && o != c.canon(t) {
				dup = true
			}
			seen[k] = c.canon(t)
		}
	}
	for _, f := range c.Fns {
		if f.Helper {
			continue
		}
		var rs []scItem
		c.resps(f.Items, &rs)
		for _, it := range rs {
			walk(it.T)
		}
	}
	return dup
}

func scopedProp(quick, thorough int) core.Sub {
	return core.ParProp[scCase]{Name: "scoped", Gen: genScoped, Quick: quick, Thorough: thorough,
		NonTrivial: func(c scCase) bool { return c.shared() },
		Classify: func(c scCase) []string {
			var out []string
			for _, d := range c.Decls {
				k := "decl:" + d.Kind
				if len(d.Params) > 0 {
					k = "decl:generic"
				}
				if d.Local {
					k += ":local"
				}
				out = append(out, k)
			}
			return out
		},
		Oracle: func(r *core.Run, c scCase) error {
			if !c.ok() {
				core.Discardf("the names of the generated program do not mean what they should")
			}
			return c.run(r)
		},
		Shrink: func(c scCase, fails func(scCase) bool) scCase { return c.shrink(fails) },
	}
}
