package prog

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
)

const (
	ginPath  = "github.com/gin-gonic/gin"
	uuidPath = "github.com/google/uuid"
)

// Rendered is the source of a program.
type Rendered struct {
	Files    map[string]string // path in the module -> content
	Handlers map[int]HandlerRef
	decoys   map[string]bool // files that are not part of the packages
	main     string          // directory of the main package
}

// HandlerRef is where the runtime finds the handler of a route.
type HandlerRef struct {
	Name string // runtime function name
	File string // relative to the module
	Line int
	Expr string // expression that is registered, from main
}

type fileBuf struct {
	r       *renderer
	pkg     int
	idx     int
	imports map[string]string // import path -> name used ("." for dot)
	names   map[string]bool   // names taken by imports
	body    strings.Builder
	tail    strings.Builder
	lines   map[int]int // handler -> line in body
}

type renderer struct {
	p        *Program
	files    map[[2]int]*fileBuf
	n        int
	inMain   map[int]string // inline handlers: source, by function
	noise    map[int]bool   // packages that need the noise declarations
	dotOK    map[int]bool
	mainBody string
	exprs    map[int]string
	names    map[int]string
	typeUsed map[int]bool
}

func (r *renderer) file(pkg, idx int) *fileBuf {
	k := [2]int{pkg, idx}
	if f := r.files[k]; f != nil {
		return f
	}
	f := &fileBuf{r: r, pkg: pkg, idx: idx, imports: map[string]string{}, names: map[string]bool{}, lines: map[int]int{}}
	r.files[k] = f
	return f
}

func (r *renderer) fresh(prefix string) string {
	r.n++
	return fmt.Sprintf("%s_%d", prefix, r.n)
}

// use imports a path under a preferred name and returns the qualifier with a dot.
func (f *fileBuf) use(path, name, style string) string {
	if n, ok := f.imports[path]; ok {
		if n == "." {
			return ""
		}
		return n + "."
	}
	switch style {
	case "dot":
		f.imports[path] = "."
		return ""
	case "renamed":
		name = "im" + name
	}
	base := name
	for i := 2; f.names[name]; i++ {
		name = fmt.Sprintf("%s%d", base, i)
	}
	f.names[name] = true
	f.imports[path] = name
	return name + "."
}

// packageName is the name that an imported package has without another.
func (r *renderer) packageName(path string) string {
	for _, pk := range r.p.Pkgs[1:] {
		if path == r.p.Mod+"/"+pk.Path {
			return pk.Name
		}
	}
	return path[strings.LastIndex(path, "/")+1:]
}

func (f *fileBuf) gin() string {
	return f.use(ginPath, "gin", f.r.p.Pkgs[f.pkg].Gin)
}

// qual qualifies a name of a package of the program.
func (f *fileBuf) qual(pkg int, name string) string {
	if pkg == f.pkg {
		return name
	}
	p := f.r.p
	style := p.Pkgs[pkg].Style
	if style == "dot" && !f.r.dotOK[pkg] {
		style = "renamed"
	}
	return f.use(p.PkgPath(pkg), p.Pkgs[pkg].Name, style) + name
}

func quoteTag(tags []Tag) string {
	if len(tags) == 0 {
		return ""
	}
	var parts []string
	for _, t := range tags {
		parts = append(parts, t.Key+":"+strconv.Quote(t.Val))
	}
	s := strings.Join(parts, " ")
	if strings.Contains(s, "`") {
		return " " + strconv.Quote(s)
	}
	return " `" + s + "`"
}

// typ renders a type expression.
func (f *fileBuf) typ(t TExpr) string {
	switch t.K {
	case "basic":
		return t.B
	case "ext":
		switch t.B {
		case "error":
			return "error"
		case "gin.H":
			return f.gin() + "H"
		case "uuid.UUID":
			return f.use(uuidPath, "uuid", "") + "UUID"
		case "time.Time", "time.Duration":
			return f.use("time", "time", "") + strings.TrimPrefix(t.B, "time.")
		}
	case "named":
		d := f.r.p.Types[t.ID]
		return f.qual(d.Pkg, d.Name)
	case "ptr":
		return "*" + f.typ(*t.El)
	case "slice":
		return "[]" + f.typ(*t.El)
	case "array":
		return fmt.Sprintf("[%d]%s", t.Len, f.typ(*t.El))
	case "map":
		return "map[" + f.typ(*t.Key) + "]" + f.typ(*t.El)
	case "struct":
		return f.strct(t, "")
	case "any":
		return "any"
	case "iface":
		return "interface{ Mth(int) string }"
	case "func":
		return "func(int) string"
	case "chan":
		return "chan int"
	}
	panic("typ: " + t.K + " " + t.B)
}

func (f *fileBuf) strct(t TExpr, indent string) string {
	if len(t.Fields) == 0 {
		return "struct{}"
	}
	var b strings.Builder
	b.WriteString("struct {\n")
	for i := 0; i < len(t.Fields); i++ {
		fd := t.Fields[i]
		docLines(&b, indent+"\t", fd.Doc, false)
		b.WriteString(indent + "\t")
		if !fd.Embed {
			b.WriteString(fd.Name)
			for i+1 < len(t.Fields) && joins(fd, t.Fields[i+1]) {
				i++
				b.WriteString(", " + t.Fields[i].Name)
			}
			b.WriteString(" ")
		}
		text := f.typ(fd.T)
		if fd.Flat {
			text = oneLine(text)
		}
		b.WriteString(text + quoteTag(fd.Tags))
		if fd.Trail != "" {
			b.WriteString(" // " + fd.Trail)
		}
		b.WriteString("\n")
	}
	b.WriteString(indent + "}")
	return b.String()
}

// joins is whether a field can share the declaration of the one before.
func joins(fd, next Field) bool {
	return next.Join && !next.Embed && reflect.DeepEqual(fd.T, next.T) && slices.Equal(fd.Doc, next.Doc) && slices.Equal(fd.Tags, next.Tags)
}

var lineBreak = regexp.MustCompile(`(\{?)\s*\n\s*(\}?)`)

// oneLine puts a struct without comments on one line.
func oneLine(text string) string {
	if strings.Contains(text, "//") || strings.Contains(text, "/*") || strings.Contains(text, "`\n`") {
		return text
	}
	return lineBreak.ReplaceAllStringFunc(text, func(s string) string {
		m := lineBreak.FindStringSubmatch(s)
		if m[1] == "" && m[2] == "" {
			return "; "
		}
		return m[1] + " " + m[2]
	})
}

// typeDecls renders the named types of all packages.
func (r *renderer) typeDecls(need map[int]bool) {
	// grouped declarations are collected per file and group
	type gk struct{ pkg, file, group int }
	groups := map[gk][]int{}
	var order []gk
	for id, d := range r.p.Types {
		if !need[id] {
			continue
		}
		k := gk{d.Pkg, d.File, d.Group}
		if d.Group == 0 {
			k.group = -1 - id
		}
		if len(groups[k]) == 0 {
			order = append(order, k)
		}
		groups[k] = append(groups[k], id)
	}
	for _, k := range order {
		f := r.file(k.pkg, k.file)
		indent, hoisted := "", false
		if k.group > 0 {
			f.body.WriteString("\n// A comment on a group.\n")
			switch ids := groups[k]; {
			case len(ids) == 1 && k.group == 2: // the comment of the group is the one of its only type
				f.body.WriteString("\n")
				docLines(&f.body, "", r.p.Types[ids[0]].Doc, r.p.Types[ids[0]].Block)
				hoisted = true
			case !slices.ContainsFunc(ids, func(id int) bool { return DocText(r.p.Types[id].Doc) == "" }):
				// all types have comments of their own
			default:
				f.body.WriteString("\n")
			}
			f.body.WriteString("type (\n")
			indent = "\t"
		}
		for _, id := range groups[k] {
			d := r.p.Types[id]
			if indent == "" {
				f.body.WriteString("\n")
			}
			if !hoisted {
				docLines(&f.body, indent, d.Doc, d.Block)
			}
			f.body.WriteString(indent)
			if k.group <= 0 {
				f.body.WriteString("type ")
			}
			f.body.WriteString(d.Name + " ")
			if d.Alias {
				f.body.WriteString("= ")
			}
			text := f.typ(d.T)
			if d.Flat && d.T.K == "struct" {
				text = oneLine(text)
			}
			f.body.WriteString(text + "\n")
		}
		if k.group > 0 {
			f.body.WriteString(")\n")
		}
	}
	for id, d := range r.p.Types {
		if need[id] {
			r.consts(id, d)
		}
	}
}

// consts renders the constants of an enum type.
func (r *renderer) consts(id int, d TypeDecl) {
	type gk struct{ file, group int }
	groups := map[gk][]Const{}
	var order []gk
	for i, c := range d.Consts {
		k := gk{c.File, c.Group}
		if c.Group == 0 {
			k.group = -1 - i
		}
		if len(groups[k]) == 0 {
			order = append(order, k)
		}
		groups[k] = append(groups[k], c)
	}
	for _, k := range order {
		f := r.file(d.Pkg, k.file)
		if k.group > 0 {
			f.body.WriteString("\nconst (\n")
		}
		cs := groups[k]
		for i := 0; i < len(cs); i++ {
			c := cs[i]
			pre := "const "
			if k.group > 0 {
				pre = "\t"
			}
			name := r.fresh(fmt.Sprintf("%sK", upperFirst(d.Name)))
			switch c.Decoy {
			case "":
				if c.Multi && i+1 < len(cs) && cs[i+1].Decoy == "" {
					n2 := r.fresh("K")
					fmt.Fprintf(&f.body, "%s%s, %s %s = %s, %s\n", pre, name, n2, d.Name, c.Src, cs[i+1].Src)
					i++
					continue
				}
				fmt.Fprintf(&f.body, "%s%s %s = %s\n", pre, name, d.Name, c.Src)
			case "untyped": // a constant of no named type
				fmt.Fprintf(&f.body, "%s%s = %s\n", pre, name, c.Src)
			case "var": // a variable of the type
				if k.group > 0 {
					fmt.Fprintf(&f.tail, "\nvar %s %s = %s\n", name, d.Name, c.Src)
				} else {
					fmt.Fprintf(&f.body, "var %s %s = %s\n", name, d.Name, c.Src)
				}
			case "conv": // of the type, but not declared with it
				fmt.Fprintf(&f.body, "%s%s = %s(%s)\n", pre, name, d.Name, c.Src)
			case "local": // inside a function
				fmt.Fprintf(&f.tail, "\nfunc %s() {\n\tconst k %s = %s\n\t_ = k\n}\n", name, d.Name, c.Src)
			case "basic": // of the underlying type
				fmt.Fprintf(&f.body, "%s%s %s = %s\n", pre, name, f.typ(r.underBasic(d.T)), c.Src)
			}
		}
		if k.group > 0 {
			f.body.WriteString(")\n")
		}
	}
}

func (r *renderer) underBasic(t TExpr) TExpr {
	for t.K == "named" {
		t = r.p.Types[t.ID].T
	}
	return t
}

// fnCtx is the state of rendering one function body.
type fnCtx struct {
	f      *fileBuf
	ctx    string
	indent string
	out    *strings.Builder
	post   []string // lines after the current statement
	ret    string   // return statement of the innermost function
}

func (c *fnCtx) line(format string, a ...any) {
	fmt.Fprintf(c.out, "%s%s\n", c.indent, fmt.Sprintf(format, a...))
}

func (c *fnCtx) nested(f func()) {
	old := c.indent
	c.indent += "\t"
	f()
	c.indent = old
}

// xint renders an integer expression.
func (c *fnCtx) xint(x X) string {
	return c.x(x, fmt.Sprint(x.I), "int")
}

// xstr renders a string expression.
func (c *fnCtx) xstr(x X) string {
	return c.x(x, strconv.Quote(x.S), "string")
}

func (c *fnCtx) x(x X, lit, typ string) string {
	r := c.f.r
	local := func(format string) string {
		n := r.fresh("v")
		c.line(format, n, lit)
		return n
	}
	decl := func(f *fileBuf, format, prefix string) string {
		n := r.fresh(prefix)
		fmt.Fprintf(&f.tail, "\n"+format+"\n", n, lit)
		return n
	}
	other := 0
	if c.f.idx == 0 {
		other = 1
	}
	switch x.Form {
	case "", "lit":
		return lit
	case "raw":
		if strings.ContainsAny(x.S, "`\r\n") {
			return lit
		}
		return "`" + x.S + "`"
	case "esc":
		var b strings.Builder
		b.WriteByte('"')
		for _, ch := range x.S {
			if ch < 0x10000 {
				fmt.Fprintf(&b, "\\u%04x", ch)
			} else {
				fmt.Fprintf(&b, "\\U%08x", ch)
			}
		}
		b.WriteByte('"')
		return b.String()
	case "hex":
		return fmt.Sprintf("0x%X", x.I)
	case "oct":
		return fmt.Sprintf("0o%o", x.I)
	case "bin":
		return fmt.Sprintf("0b%b", x.I)
	case "under":
		s := fmt.Sprint(x.I)
		if len(s) < 2 {
			return s
		}
		return s[:1] + "_" + s[1:]
	case "float":
		return fmt.Sprintf("%d.0", x.I)
	case "sum":
		return fmt.Sprintf("%d + %d", x.I-7, 7)
	case "mul":
		return fmt.Sprintf("2*%d + %d", x.I/2, x.I%2)
	case "concat":
		rs := []rune(x.S)
		h := len(rs) / 2
		return strconv.Quote(string(rs[:h])) + " + " + strconv.Quote(string(rs[h:]))
	case "paren":
		return "(" + lit + ")"
	case "conv":
		return typ + "(" + lit + ")"
	case "const":
		return decl(c.f, "const %s = %s", "k")
	case "constFile":
		return decl(r.file(c.f.pkg, other), "const %s = %s", "k")
	case "constTyped":
		return decl(c.f, "const %s "+typ+" = %s", "k")
	case "constGroup":
		n := r.fresh("k")
		fmt.Fprintf(&c.f.tail, "\nconst (\n\t%sa = %s\n\t%s = %s\n\t%sb = %s\n)\n", n, zeroLit(typ), n, lit, n, zeroLit(typ))
		return n
	case "constExpr":
		n := decl(c.f, "const %s = %s", "k")
		m := r.fresh("k")
		fmt.Fprintf(&c.f.tail, "\nconst %s = %s + %s\n", m, n, zeroLit(typ))
		return m
	case "iota":
		n := r.fresh("k")
		fmt.Fprintf(&c.f.tail, "\nconst (\n\t%sa = iota + %d\n\t%s\n\t%sb\n)\n", n, x.I-1, n, n)
		return n
	case "constPkg":
		return c.f.qual(x.Pkg, decl(r.file(x.Pkg, 0), "const %s = %s", "K"))
	case "varPkg":
		return c.f.qual(x.Pkg, decl(r.file(x.Pkg, 0), "var %s = %s", "V"))
	case "pkgvar":
		return decl(c.f, "var %s = %s", "v")
	case "pkgvarFile":
		return decl(r.file(c.f.pkg, other), "var %s = %s", "v")
	case "pkgvarMulti":
		n := r.fresh("v")
		fmt.Fprintf(&c.f.tail, "\nvar %sa, %s, %sb = %s, %s, true\n", n, n, n, zeroLit(typ), lit)
		return n
	case "short":
		return local("%s := %s")
	case "var":
		return local("var %s = %s")
	case "varTyped":
		return local("var %s " + typ + " = %s")
	case "localConst":
		return local("const %s = %s")
	case "multi":
		n := r.fresh("v")
		c.line("%sa, %s := %s, %s", n, n, zeroLit(typ), lit)
		c.line("_ = %sa", n)
		return n
	case "varGroup":
		n := r.fresh("v")
		c.line("var (")
		c.line("\t%sa = %s", n, zeroLit(typ))
		c.line("\t%s = %s", n, lit)
		c.line(")")
		c.line("_ = %sa", n)
		return n
	case "chain": // a variable with the value of another
		n, m := r.fresh("v"), r.fresh("v")
		c.line("%s := %s", n, lit)
		c.line("%s := %s", m, n)
		return m
	case "chainConst":
		n := decl(c.f, "const %s = %s", "k")
		m := r.fresh("v")
		c.line("%s := %s", m, n)
		return m
	case "shadow":
		n := r.fresh("v")
		c.line("%s := %s", n, zeroLit(typ))
		c.line("_ = %s", n)
		c.line("{")
		c.line("%s := %s", n, lit)
		c.post = append(c.post, "}")
		return n
	case "shadowPkg": // a local variable with the name of a package variable
		n := r.fresh("v")
		fmt.Fprintf(&c.f.tail, "\nvar %s = %s\n", n, zeroLit(typ))
		c.line("%s := %s", n, lit)
		return n
	}
	panic("x form: " + x.Form)
}

// IntForms and StrForms are the forms of integer and string expressions;
// those with an upper case Pkg need another package.
var (
	commonForms = []string{"lit", "paren", "conv", "const", "constFile", "constTyped", "constGroup", "constExpr", "constPkg", "varPkg", "pkgvar", "pkgvarFile",
		"pkgvarMulti", "short", "var", "varTyped", "localConst", "multi", "varGroup", "chain", "chainConst", "shadow", "shadowPkg"}
	IntForms = append([]string{"hex", "oct", "bin", "under", "float", "sum", "mul", "iota"}, commonForms...)
	StrForms = append([]string{"raw", "esc", "concat"}, commonForms...)
)

func zeroLit(typ string) string {
	if typ == "int" {
		return "0"
	}
	return `""`
}

// ValForms are the forms of a value of any type.
var ValForms = []string{"var", "addr", "lit", "call", "callPkg", "field", "fieldPtr", "index", "mapidx", "assert", "deref", "recv", "conv", "multi", "multi2", "new", "method",
	"generic", "genericInst", "closure", "closureVar", "paren", "pkgvar", "pkgvarPkg", "named", "short", "range", "sliceexpr", "param"}

// isPtrLike: T{} is not an expression of these types.
func (r *renderer) composite(t TExpr) bool {
	switch t.K {
	case "struct", "slice", "array", "map":
		return true
	case "ext":
		return t.B == "gin.H" || t.B == "time.Time" || t.B == "uuid.UUID"
	case "named":
		return r.composite(r.p.Types[t.ID].T)
	}
	return false
}

// val renders an expression of a type.
func (c *fnCtx) val(v V) string {
	r := c.f.r
	ts := ""
	if v.Form != "callPkg" && v.Form != "pkgvarPkg" { // they import the type elsewhere
		ts = c.f.typ(v.T)
	}
	zero := func() string {
		n := r.fresh("v")
		c.line("var %s %s", n, ts)
		return n
	}
	fn := func(f *fileBuf, prefix string) string {
		n := r.fresh(prefix)
		fmt.Fprintf(&f.tail, "\nfunc %s() %s {\n\tvar z %s\n\treturn z\n}\n", n, f.typ(v.T), f.typ(v.T))
		return n
	}
	switch v.Form {
	case "", "var":
		return zero()
	case "short":
		if r.composite(v.T) {
			n := r.fresh("v")
			c.line("%s := %s{}", n, ts)
			return n
		}
		return zero()
	case "addr":
		return "&" + zero()
	case "lit":
		switch {
		case r.composite(v.T):
			return ts + "{}"
		case v.T.K == "basic" && v.T.B == "string":
			return `"text"`
		case v.T.K == "basic" && v.T.B == "int":
			return "42"
		case v.T.K == "basic" && v.T.B == "float64":
			return "4.5"
		case v.T.K == "basic" && v.T.B == "bool":
			return "true"
		}
		return zero()
	case "call":
		return fn(c.f, "mk") + "()"
	case "callPkg":
		return c.f.qual(v.Pkg, fn(r.file(v.Pkg, 0), "Mk")) + "()"
	case "field":
		n := r.fresh("v")
		c.line("var %s struct {", n)
		c.line("\tA int")
		c.line("\tF %s", ts)
		c.line("}")
		return n + ".F"
	case "fieldPtr":
		n := r.fresh("hold")
		fmt.Fprintf(&c.f.tail, "\ntype %s struct {\n\tA string\n\tF %s\n}\n", n, ts)
		m := r.fresh("v")
		c.line("%s := &%s{}", m, n)
		return m + ".F"
	case "index":
		n := r.fresh("v")
		c.line("%s := make([]%s, 1)", n, ts)
		return n + "[0]"
	case "mapidx":
		n := r.fresh("v")
		c.line("%s := map[string]%s{}", n, ts)
		return n + `["x"]`
	case "assert":
		n := zero()
		m := r.fresh("v")
		c.line("var %s any = %s", m, n)
		return m + ".(" + ts + ")"
	case "deref":
		n := r.fresh("v")
		c.line("%s := new(%s)", n, ts)
		return "*" + n
	case "recv":
		n := zero()
		m := r.fresh("v")
		c.line("%s := make(chan %s, 1)", m, ts)
		c.line("%s <- %s", m, n)
		return "<-" + m
	case "conv":
		return "(" + ts + ")(" + zero() + ")"
	case "multi":
		n := r.fresh("mk")
		fmt.Fprintf(&c.f.tail, "\nfunc %s() (%s, error) {\n\tvar z %s\n\treturn z, nil\n}\n", n, ts, ts)
		m := r.fresh("v")
		c.line("%s, err%s := %s()", m, m, n)
		c.line("_ = err%s", m)
		return m
	case "multi2":
		n := r.fresh("mk")
		fmt.Fprintf(&c.f.tail, "\nfunc %s() (int, %s, error) {\n\tvar z %s\n\treturn 0, z, nil\n}\n", n, ts, ts)
		m := r.fresh("v")
		c.line("_, %s, _ := %s()", m, n)
		return m
	case "new":
		return "new(" + ts + ")"
	case "method":
		n := r.fresh("mth")
		fmt.Fprintf(&c.f.tail, "\ntype %s struct{}\n\nfunc (%s) Get() %s {\n\tvar z %s\n\treturn z\n}\n", n, n, ts, ts)
		return n + "{}.Get()"
	case "generic":
		n := r.fresh("id")
		fmt.Fprintf(&c.f.tail, "\nfunc %s[T any](v T) T { return v }\n", n)
		return n + "(" + zero() + ")"
	case "genericInst":
		n := r.fresh("zero")
		fmt.Fprintf(&c.f.tail, "\nfunc %s[T any]() (v T) { return }\n", n)
		return n + "[" + ts + "]()"
	case "closure":
		return "func() (v " + ts + ") { return }()"
	case "closureVar":
		n := r.fresh("v")
		c.line("%s := func() (v %s) { return }", n, ts)
		return n + "()"
	case "paren":
		return "(" + zero() + ")"
	case "pkgvar":
		n := r.fresh("v")
		fmt.Fprintf(&c.f.tail, "\nvar %s %s\n", n, ts)
		return n
	case "pkgvarPkg":
		n := r.fresh("V")
		f := r.file(v.Pkg, 0)
		fmt.Fprintf(&f.tail, "\nvar %s %s\n", n, f.typ(v.T))
		return c.f.qual(v.Pkg, n)
	case "named": // named result of a function literal called by name
		n := r.fresh("mk")
		fmt.Fprintf(&c.f.tail, "\nvar %s = func(int) (v %s) { return }\n", n, ts)
		return n + "(1)"
	case "range":
		n := r.fresh("v")
		m := zero()
		c.line("for _, %s := range []%s{%s} {", n, ts, m)
		c.post = append(c.post, "}")
		return n
	case "sliceexpr":
		if v.T.K == "slice" {
			return zero() + "[:0]"
		}
		return zero()
	case "param":
		n := zero()
		m := r.fresh("v")
		c.line("func(%s %s) {", m, ts)
		c.post = append(c.post, fmt.Sprintf("}(%s)", n))
		return m
	}
	panic("val form: " + v.Form)
}

// stmt renders one statement.
func (c *fnCtx) stmt(s *Stmt) {
	savedPost := c.post
	c.post = nil
	switch s.K {
	case "resp":
		c.resp(s)
	case "header":
		c.line("%s.Header(%s, %q)", c.ctx, c.xstr(*s.Str), "value")
	case "in":
		c.input(s)
	case "bind":
		c.bind(s)
	case "call":
		c.call(s)
	case "ctl":
		c.control(s)
	case "noise":
		c.noise(s)
	default:
		panic("stmt " + s.K)
	}
	for i := len(c.post) - 1; i >= 0; i-- {
		c.line("%s", c.post[i])
	}
	c.post = savedPost
	if s.F == "return" {
		c.line("%s", c.ret)
	}
}

// inFunc renders with the return statement of a nested function.
func (c *fnCtx) inFunc(ret string, f func()) {
	old := c.ret
	c.ret = ret
	f()
	c.ret = old
}

func (c *fnCtx) resp(s *Stmt) {
	st := c.xint(*s.St)
	switch s.M {
	case "Status", "AbortWithStatus":
		c.line("%s.%s(%s)", c.ctx, s.M, st)
	case "AbortWithError":
		n := c.f.r.fresh("v")
		c.line("var %s error", n)
		c.line("_ = %s.AbortWithError(%s, %s)", c.ctx, st, n)
	case "String":
		c.line("%s.String(%s, %q, %d)", c.ctx, st, "%d", 1)
	case "Data":
		ct := c.xstr(*s.Str)
		c.line("%s.Data(%s, %s, []byte(%q))", c.ctx, st, ct, "data")
	default:
		c.line("%s.%s(%s, %s)", c.ctx, s.M, st, c.val(*s.Val))
	}
}

var inputResults = map[string]int{ // number of results
	"Query": 1, "GetQuery": 2, "QueryArray": 1, "GetQueryArray": 2, "QueryMap": 1, "GetQueryMap": 2,
	"PostForm": 1, "GetPostForm": 2, "PostFormArray": 1, "GetPostFormArray": 2, "PostFormMap": 1, "GetPostFormMap": 2,
	"FormFile": 2, "GetHeader": 1,
}

func (c *fnCtx) input(s *Stmt) {
	call := fmt.Sprintf("%s.%s(%s)", c.ctx, s.M, c.xstr(*s.Str))
	two := inputResults[s.M] == 2
	n := c.f.r.fresh("v")
	body := func() { c.nested(func() { c.stmts(s.Body) }) }
	cond := "ok" + n
	if s.M == "FormFile" {
		cond += " == nil"
	}
	switch s.F {
	case "cond":
		if two {
			c.line("if _, ok%s := %s; %s {", n, call, cond)
		} else {
			c.line("if len(%s) > 0 {", call)
		}
		body()
		c.line("}")
	case "arg":
		if two {
			c.line("_, _ = %s", call)
		} else {
			c.line("_ = len(%s)", call)
		}
	case "lit":
		if two {
			c.line("%s, ok%s := %s", n, n, call)
			c.line("_ = []any{%s, ok%s}", n, n)
		} else {
			c.line("_ = map[string]any{%q: %s}", "k", call)
		}
	default:
		if two {
			c.line("%s, ok%s := %s", n, n, call)
			c.line("_, _ = %s, ok%s", n, n)
		} else {
			c.line("%s := %s", n, call)
			c.line("_ = %s", n)
		}
	}
}

// BindForms are the forms of the argument of a bind call.
var BindForms = []string{"addr", "new", "ptrlit", "inline", "pkgvar", "call", "field"}

func (c *fnCtx) bind(s *Stmt) {
	r := c.f.r
	v := *s.Val
	ts := c.f.typ(v.T)
	var arg string
	n := r.fresh("v")
	switch v.Form {
	case "new":
		c.line("%s := new(%s)", n, ts)
		arg = n
	case "ptrlit":
		if r.composite(v.T) {
			c.line("%s := &%s{}", n, ts)
		} else {
			c.line("%s := new(%s)", n, ts)
		}
		arg = n
	case "inline":
		arg = "new(" + ts + ")"
		if r.composite(v.T) {
			arg = "&" + ts + "{}"
		}
	case "pkgvar":
		fmt.Fprintf(&c.f.tail, "\nvar %s %s\n", n, ts)
		arg = "&" + n
	case "call":
		m := r.fresh("mk")
		fmt.Fprintf(&c.f.tail, "\nfunc %s() *%s { return new(%s) }\n", m, ts, ts)
		arg = m + "()"
	case "field":
		c.line("var %s struct{ F %s }", n, ts)
		arg = "&" + n + ".F"
	default:
		c.line("var %s %s", n, ts)
		arg = "&" + n
	}
	call := fmt.Sprintf("%s.%s(%s)", c.ctx, s.M, arg)
	switch s.F {
	case "cond":
		c.line("if err%s := %s; err%s != nil {", n, call, n)
		c.nested(func() { c.stmts(s.Body) })
		c.line("}")
	case "var":
		c.line("err%s := %s", n, call)
		c.line("if err%s != nil {", n)
		c.nested(func() { c.stmts(s.Body) })
		c.line("}")
	default:
		c.line("_ = %s", call)
	}
}

func (c *fnCtx) call(s *Stmt) {
	h := c.f.r.p.Funcs[s.Fn]
	var args []string
	if len(h.Order) > 0 {
		args = c.customArgs(s, h)
		h.Params, h.CtxPos = -1, -1
	}
	for i := 0; i <= h.Params; i++ {
		switch {
		case i == h.CtxPos:
			args = append(args, c.ctx)
		case i%2 == 0:
			args = append(args, strconv.Itoa(i))
		default:
			args = append(args, strconv.Quote("a"))
		}
	}
	fun := c.f.qual(h.Pkg, h.Name)
	if h.Method {
		fun = "(" + c.f.qual(h.Pkg, h.Name+"Recv") + "{})." + h.Name
	}
	if h.Form == "generic" {
		if s.F == "inst" {
			fun += "[int]"
		}
		args = append(args, "7")
	}
	if s.F == "paren" {
		fun = "(" + fun + ")"
	}
	call := fmt.Sprintf("%s(%s)", fun, strings.Join(args, ", "))
	switch s.F {
	case "cond":
		c.line("if %s {", call)
		c.nested(func() { c.stmts(s.Body) })
		c.line("}")
	case "discard":
		c.line("_ = %s", call)
	case "go", "defer":
		c.line("%s %s", s.F, call)
	default:
		c.line("%s", call)
	}
}

// CtlForms are the forms of control flow around statements.
var CtlForms = []string{"if", "ifelse", "elseif", "ifinit", "for", "range", "rangefunc", "forever", "switch", "switchinit", "fallthrough", "typeswitch", "select", "block", "closure", "closurevar",
	"ctxclosure", "defer", "go", "label", "ctxvar", "methodvar", "return"}

func (c *fnCtx) control(s *Stmt) {
	r := c.f.r
	body := func() { c.nested(func() { c.stmts(s.Body) }) }
	other := func() { c.nested(func() { c.stmts(s.Else) }) }
	n := r.fresh("v")
	cond := c.ctx + ".IsAborted()"
	switch s.M {
	case "if":
		c.line("if %s {", cond)
		body()
		c.line("}")
		c.stmts(s.Else)
	case "ifelse":
		c.line("if %s {", cond)
		body()
		c.line("} else {")
		other()
		c.line("}")
	case "elseif":
		c.line("if %s {", cond)
		body()
		c.line("} else if !%s {", cond)
		other()
		c.line("} else {")
		c.line("}")
	case "ifinit":
		c.line("if %s := %s; %s {", n, cond, n)
		body()
		c.line("} else {")
		other()
		c.line("}")
	case "for":
		c.line("for %s := 0; %s < 1; %s++ {", n, n, n)
		body()
		c.line("}")
		c.stmts(s.Else)
	case "range":
		c.line("for %s := range []int{1} {", n)
		c.line("\t_ = %s", n)
		body()
		c.line("}")
		c.stmts(s.Else)
	case "rangefunc":
		c.line("for range make(map[string]func(), 0) {")
		body()
		c.line("}")
		c.stmts(s.Else)
	case "forever":
		c.line("for {")
		body()
		c.line("\tbreak")
		c.line("}")
		c.stmts(s.Else)
	case "switch":
		c.line("switch {")
		c.line("case %s:", cond)
		body()
		c.line("default:")
		other()
		c.line("}")
	case "switchinit":
		c.line("switch %s := %s; %s {", n, cond, n)
		c.line("case true:")
		body()
		c.line("case false:")
		other()
		c.line("}")
	case "fallthrough":
		c.line("switch %s {", cond)
		c.line("case true:")
		body()
		c.line("\tfallthrough")
		c.line("default:")
		other()
		c.line("}")
	case "typeswitch":
		c.line("switch %s := any(%q).(type) {", n, "x")
		c.line("case string:")
		c.line("\t_ = %s", n)
		body()
		c.line("case int, bool:")
		other()
		c.line("}")
	case "select":
		c.line("%s := make(chan int, 1)", n)
		c.line("select {")
		c.line("case <-%s:", n)
		body()
		c.line("default:")
		other()
		c.line("}")
	case "block":
		c.line("{")
		body()
		c.line("}")
		c.stmts(s.Else)
	case "closure":
		c.line("func() {")
		c.inFunc("return", body)
		c.line("}()")
		c.stmts(s.Else)
	case "closurevar":
		c.line("%s := func(i int) bool {", n)
		c.inFunc("return false", body)
		c.line("\treturn i > 0")
		c.line("}")
		c.line("_ = %s(1)", n)
		c.stmts(s.Else)
	case "ctxclosure":
		c.line("func(%s *%sContext) {", n, c.f.gin())
		old := c.ctx
		c.ctx = n
		c.inFunc("return", body)
		c.line("\t_ = %s", n)
		c.ctx = old
		c.line("}(%s)", c.ctx)
		c.stmts(s.Else)
	case "defer", "go":
		c.line("%s func() {", s.M)
		c.inFunc("return", body)
		c.line("}()")
		c.stmts(s.Else)
	case "label":
		c.line("lab%s:", n)
		c.line("for {")
		body()
		c.line("\tbreak lab%s", n)
		c.line("}")
		c.stmts(s.Else)
	case "ctxvar":
		c.line("%s := %s", n, c.ctx)
		c.line("_ = %s", n)
		old := c.ctx
		c.ctx = n
		c.stmts(s.Body)
		c.ctx = old
		c.stmts(s.Else)
	case "methodvar": // a type with a method that does the work is declared in the function's place
		c.line("for _, %s := range []func(){func() {", n)
		c.inFunc("return", body)
		c.line("}} {")
		c.line("\t%s()", n)
		c.line("}")
		c.stmts(s.Else)
	case "return":
		c.line("if %s {", cond)
		body()
		c.line("\t%s", c.ret)
		c.line("}")
		c.stmts(s.Else)
	default:
		panic("ctl " + s.M)
	}
}

func (c *fnCtx) stmts(ss []Stmt) {
	for i := range ss {
		c.stmt(&ss[i])
	}
}

// fun renders a handler or helper.
func (r *renderer) fun(i int) {
	fn := &r.p.Funcs[i]
	f := r.file(fn.Pkg, fn.File)
	var b strings.Builder
	gin := ""
	if len(fn.Order) == 0 || slices.Contains(fn.Order, "ctx") {
		gin = f.gin()
	}
	pkgPrefix := r.p.PkgPath(fn.Pkg)
	if fn.Pkg == 0 {
		pkgPrefix = "main"
	} else if k := strings.LastIndex(pkgPrefix, "/"); k >= 0 {
		pkgPrefix = pkgPrefix[:k+1] + strings.ReplaceAll(pkgPrefix[k+1:], ".", "%2e")
	}
	ret := "return"
	body := func(indent string) {
		c := &fnCtx{f: f, ctx: fn.Ctx, indent: indent, out: &b, ret: ret}
		c.stmts(fn.Body)
	}
	switch fn.Kind {
	case "helper":
		b.WriteString("\n")
		docLines(&b, "", fn.Doc, fn.Block)
		var params []string
		for j := 0; j <= fn.Params; j++ {
			switch {
			case j == fn.CtxPos:
				params = append(params, fn.Ctx+" *"+gin+"Context")
			case j%2 == 0:
				params = append(params, fmt.Sprintf("p%d int", j))
			default:
				params = append(params, fmt.Sprintf("p%d string", j))
			}
		}
		if len(fn.Order) > 0 {
			r.customFun(fn, f, &b, gin, body, &ret)
			return
		}
		tp := ""
		switch fn.Form {
		case "generic":
			tp = "[T any]"
			params = append(params, "pt T")
		case "variadic":
			params = append(params, "ps ...string")
		}
		fmt.Fprintf(&b, "func %s%s(%s) bool {\n", fn.Name, tp, strings.Join(params, ", "))
		ret = "return false"
		body("\t")
		b.WriteString("\treturn true\n}\n")
		f.body.WriteString(b.String())
	case "named":
		b.WriteString("\n")
		docLines(&b, "", fn.Doc, fn.Block)
		pre := strings.Count(f.body.String()+b.String(), "\n")
		f.lines[i] = pre + 1
		fmt.Fprintf(&b, "func %s(%s *%sContext) {\n", fn.Name, fn.Ctx, gin)
		body("\t")
		b.WriteString("}\n")
		f.body.WriteString(b.String())
		r.names[i] = pkgPrefix + "." + fn.Name
	case "var":
		b.WriteString("\n")
		docLines(&b, "", fn.Doc, fn.Block)
		f.lines[i] = strings.Count(f.body.String()+b.String(), "\n") + 1
		fmt.Fprintf(&b, "var %s = func(%s *%sContext) {\n", fn.Name, fn.Ctx, gin)
		body("\t")
		b.WriteString("}\n")
		f.body.WriteString(b.String())
		r.names[i] = pkgPrefix + ".init.func" + strconv.Itoa(len(r.names)+1)
	case "factory":
		b.WriteString("\n")
		docLines(&b, "", fn.Doc, fn.Block)
		fmt.Fprintf(&b, "func %s(n int) %sHandlerFunc {\n\tif n > 5 {\n\t\tn = 5\n\t}\n", fn.Name, gin)
		f.lines[i] = strings.Count(f.body.String()+b.String(), "\n") + 1
		fmt.Fprintf(&b, "\treturn func(%s *%sContext) {\n", fn.Ctx, gin)
		body("\t\t")
		b.WriteString("\t}\n}\n")
		f.body.WriteString(b.String())
		r.names[i] = pkgPrefix + "." + fn.Name + ".func1"
	case "inline":
		// in a function of its own, as a router is set up in
		b.WriteString("\n")
		fmt.Fprintf(&b, "// Register registers.\nfunc %s(register func(%sHandlerFunc)) {\n", fn.Name, gin)
		f.lines[i] = strings.Count(f.body.String()+b.String(), "\n") + 1
		fmt.Fprintf(&b, "\tregister(func(%s *%sContext) {\n", fn.Ctx, gin)
		body("\t\t")
		b.WriteString("\t})\n}\n")
		f.body.WriteString(b.String())
		r.names[i] = pkgPrefix + "." + fn.Name + ".func1"
	default:
		panic("func kind " + fn.Kind)
	}
}

// Render renders the program. In full mode main registers the routes with gin
// and runs mainTail; otherwise main is empty.
func (p *Program) Render(full bool, mainTail string) *Rendered {
	r := &renderer{p: p, files: map[[2]int]*fileBuf{}, noise: map[int]bool{}, dotOK: map[int]bool{}, exprs: map[int]string{}, names: map[int]string{}}
	needF, needT := p.reachable()
	r.typeUsed = needT
	// a dot import is only possible if no name is declared twice
	count := map[string]int{}
	for id, d := range p.Types {
		if needT[id] {
			count[d.Name]++
		}
	}
	for i := range p.Pkgs {
		r.dotOK[i] = true
		for id, d := range p.Types {
			if needT[id] && d.Pkg == i && count[d.Name] > 1 {
				r.dotOK[i] = false
			}
		}
	}
	r.file(0, 0)
	r.typeDecls(needT)
	for i := range p.Funcs {
		if needF[i] {
			r.fun(i)
		}
	}
	for _, pkg := range sortedInts(r.noise) {
		r.noiseDecls(pkg)
	}
	mf := r.file(0, 0)
	if full {
		var b strings.Builder
		gin := mf.gin()
		b.WriteString("\nfunc main() {\n\t" + "router := " + gin + "New()\n")
		for _, rt := range p.Routes {
			fn := p.Funcs[rt.Fn]
			name := mf.qual(fn.Pkg, fn.Name)
			switch fn.Kind {
			case "factory":
				name += "(1)"
			case "inline":
				fmt.Fprintf(&b, "\t%s(func(h %sHandlerFunc) { router.Handle(%q, %q, h) })\n", name, gin, rt.Method, rt.Path)
				continue
			}
			fmt.Fprintf(&b, "\trouter.Handle(%q, %q, %s)\n", rt.Method, rt.Path, name)
		}
		b.WriteString("\trunAstra(router)\n}\n")
		mf.tail.WriteString(b.String())
	} else {
		mf.tail.WriteString("\nfunc main() {}\n")
	}
	out := &Rendered{Files: map[string]string{}, Handlers: map[int]HandlerRef{}, decoys: map[string]bool{}}
	for k, f := range r.files {
		pkg := p.Pkgs[k[0]]
		name := pkg.Name
		if k[0] == 0 {
			name = "main"
		}
		var h strings.Builder
		fmt.Fprintf(&h, "package %s\n", name)
		paths := make([]string, 0, len(f.imports))
		for ip := range f.imports {
			paths = append(paths, ip)
		}
		sort.Strings(paths)
		if len(paths) > 0 {
			open, pre, end := "\nimport (\n", "\t", ")\n"
			if p.Imports == 3 {
				open, pre, end = "\n", "import ", ""
			}
			h.WriteString(open)
			for _, ip := range paths {
				h.WriteString(pre)
				if p.Imports == 1 || f.imports[ip] != r.packageName(ip) {
					h.WriteString(f.imports[ip] + " ")
				}
				if p.Imports == 2 {
					h.WriteString("`" + ip + "`\n")
				} else {
					h.WriteString(strconv.Quote(ip) + "\n")
				}
			}
			h.WriteString(end)
		}
		off := strings.Count(h.String(), "\n")
		fname := "main.go"
		if k[1] > 0 || k[0] > 0 {
			fname = fmt.Sprintf("file%d.go", k[1])
		}
		if p.Scheme != "" {
			fname = fmt.Sprintf(p.Scheme, 'a'+k[1])
		}
		path := filepath.Join(pkg.Path, fname)
		out.Files[path] = h.String() + f.body.String() + f.tail.String()
		for i, l := range f.lines {
			out.Handlers[i] = HandlerRef{Name: r.names[i], File: path, Line: l + off}
		}
	}
	r.decoys(out)
	if full {
		out.Files["astra_main.go"] = mainTail
	}
	return out
}

// insideDecoy writes a file of the package with other things of the same names.
func (r *renderer) insideDecoy(b *strings.Builder, kind string, pkg int, dot bool) (fname string) {
	lit := func(d *TypeDecl) string {
		switch d.T.B {
		case "string":
			return `"wrong"`
		case "bool":
			return "true"
		}
		return "99"
	}
	switch kind {
	case "methods", "samename":
		var names []string
		for _, f := range r.p.Funcs {
			if (f.Pkg == pkg) == (kind == "methods") {
				names = append(names, f.Name)
			}
		}
		if kind == "methods" {
			fname = "a0_methods.go"
		} else {
			fname = "a0_same.go"
			if dot {
				return
			}
		}
		if len(names) == 0 {
			return
		}
		fmt.Fprintf(b, "\nimport %q\n", ginPath)
		if kind == "methods" {
			b.WriteString("\n// decoyM is not used.\ntype decoyM struct{}\n")
		}
		for _, n := range names {
			recv := ""
			if kind == "methods" {
				recv = "(decoyM) "
			}
			fmt.Fprintf(b, "\n// %s is wrong.\nfunc %s%s(c *gin.Context) {\n\tc.JSON(511, c.Query(\"wrong\"))\n}\n", n, recv, n)
		}
	case "locals":
		fname = "a0_locals.go"
		for j, d := range r.p.Types {
			if d.Pkg != pkg {
				continue
			}
			if d.T.K == "basic" {
				fmt.Fprintf(b, "\nfunc decoyL%d() {\n\t// %s is wrong.\n\ttype %s %s\n\tconst Wrong%d %s = %s\n\t_ = Wrong%d\n}\n", j, d.Name, d.Name, d.T.B, j, d.Name, lit(&d), j)
			} else {
				fmt.Fprintf(b, "\nfunc decoyL%d() {\n\t// %s is wrong.\n\ttype %s struct {\n\t\t// Wrong is wrong.\n\t\tWrong int\n\t}\n\t_ = %s{}\n}\n", j, d.Name, d.Name, d.Name)
			}
		}
	case "foreign":
		fname = "a0_foreign.go"
		used := map[int]bool{}
		var body strings.Builder
		for j, d := range r.p.Types {
			if d.Pkg > pkg && d.T.K == "basic" && !d.Alias && r.typeUsed[j] {
				used[d.Pkg] = true
				fmt.Fprintf(&body, "\nconst decoyF%d decoyp%d.%s = %s\n", j, d.Pkg, d.Name, lit(&d))
			}
		}
		for _, k := range sortedInts(used) {
			fmt.Fprintf(b, "\nimport decoyp%d %q\n", k, r.p.PkgPath(k))
		}
		b.WriteString(body.String())
	}
	return
}

// decoys adds files that are not part of the packages, with other things of the same names.
func (r *renderer) decoys(out *Rendered) {
	dot := false
	for _, pkg := range r.p.Pkgs {
		dot = dot || pkg.Style == "dot"
	}
	for _, k := range r.p.Decoys {
		for i, pkg := range r.p.Pkgs {
			name, used := pkg.Name, false
			if i == 0 {
				name = "main"
			}
			for f := range r.files {
				used = used || f[0] == i
			}
			if !used {
				continue
			}
			var b strings.Builder
			if fname := r.insideDecoy(&b, k, i, dot); fname != "" {
				if b.Len() > 0 {
					path := filepath.Join(pkg.Path, fname)
					out.Files[path] = "package " + name + "\n" + b.String()
					out.decoys[path] = true
				}
				continue
			}
			fname := ""
			switch k {
			case "ignored":
				fname = "aa_gen.go"
				b.WriteString("//go:build ignore\n\n")
			case "windows":
				fname = "zz_windows.go"
			case "test":
				fname = "a0_test.go"
			case "xtest":
				fname, name = "zz_test.go", name+"_test"
			case "tagged":
				fname = "mm.go"
				b.WriteString("// A comment.\n\n//go:build neverever && !neverever\n\n")
			case "oldtag":
				fname = "aa_old.go"
				b.WriteString("//go:build plan9\n// +build plan9\n\n")
			}
			fmt.Fprintf(&b, "// Package %s is another one.\npackage %s\n", name, name)
			for j, d := range r.p.Types {
				if d.Pkg != i {
					continue
				}
				lit := map[string]string{"string": `"wrong"`, "bool": "true"}[d.T.B]
				if lit == "" {
					lit = "99"
				}
				if d.T.K == "basic" {
					fmt.Fprintf(&b, "\nconst Wrong%d %s = %s\n", j, d.Name, lit)
				}
				fmt.Fprintf(&b, "\n// %s is wrong.\ntype %s struct{ Wrong int }\n", d.Name, d.Name)
			}
			for _, f := range r.p.Funcs {
				if f.Pkg == i && f.Kind == "named" {
					fmt.Fprintf(&b, "\n// %s is wrong.\nfunc %s(c int) {}\n", f.Name, f.Name)
				}
			}
			out.Files[filepath.Join(pkg.Path, fname)] = b.String()
			out.decoys[filepath.Join(pkg.Path, fname)] = true
		}
	}
}

func sortedInts(m map[int]bool) []int {
	var s []int
	for k := range m {
		s = append(s, k)
	}
	sort.Ints(s)
	return s
}

// place is where a file is: those of the main package may be in a directory of their own.
func (rd *Rendered) place(file string) string {
	if filepath.Dir(file) == "." {
		return filepath.Join(rd.main, file)
	}
	return file
}

// Write writes the rendered program into dir with a go.mod of its own.
func (rd *Rendered) Write(dir, gomod, gosum string) error {
	files := map[string]string{"go.mod": gomod}
	if gosum != "" {
		files["go.sum"] = gosum
	}
	for k, v := range rd.Files {
		files[k] = v
	}
	for k, v := range files {
		path := filepath.Join(dir, k)
		if k != "go.mod" && k != "go.sum" {
			path = filepath.Join(dir, rd.place(k))
		}
		if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(path, []byte(v), 0o644); err != nil {
			return err
		}
	}
	return nil
}
