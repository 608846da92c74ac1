package prog

import (
	"fmt"
	"go/ast"
	"slices"
	"strconv"
	"strings"
)

// fieldPkg is the package of a named type as the JSON output has it.
func (c *Ctx) fieldPkg(id int) string {
	if c.P.Types[id].Pkg == 0 {
		return "main"
	}
	return c.P.PkgPath(c.P.Types[id].Pkg)
}

var sameBasic = map[string]string{"byte": "uint8", "rune": "int32"}

// typeName is the name and package of a type where the JSON output refers to it.
func (c *Ctx) typeName(t TExpr) (name, pkg string) {
	t = c.norm(t)
	switch t.K {
	case "basic":
		if n, ok := sameBasic[t.B]; ok {
			return n, ""
		}
		return t.B, ""
	case "ext":
		switch t.B {
		case "error", "time.Duration":
			return "", "" // substituted
		case "time.Time":
			return "Time", "time"
		case "uuid.UUID":
			return "UUID", uuidPath
		case "gin.H":
			return "H", ginPath
		}
	case "named":
		return c.P.Types[t.ID].Name, c.fieldPkg(t.ID)
	case "any", "iface", "func", "chan":
		return "any", ""
	}
	return t.K, ""
}

// CompareDump compares the JSON listing of a program with its source.
func (c *Ctx) CompareDump(dump map[string]any, rd *Rendered) error {
	routes, _ := dump["routes"].([]any)
	seen := map[string]bool{}
	for _, x := range routes {
		m := obj(x)
		seen[fmt.Sprint(m["method"], " ", m["path"])] = true
		found := false
		for _, r := range c.P.Routes {
			if m["method"] != r.Method || m["path"] != r.Path {
				continue
			}
			found = true
			h := rd.Handlers[r.Fn]
			if h.Name != "" && m["handler"] != h.Name {
				return fmt.Errorf("the route %s %s has the handler %v, want %s", r.Method, r.Path, m["handler"], h.Name)
			}
		}
		if !found {
			return fmt.Errorf("a route %v %v is listed", m["method"], m["path"])
		}
	}
	for _, r := range c.P.Routes {
		if !seen[r.Method+" "+r.Path] {
			return fmt.Errorf("the route %s %s is not listed", r.Method, r.Path)
		}
	}
	byKey := map[string]int{}
	for i, d := range c.P.Types {
		if !d.Alias {
			byKey[c.fieldPkg(i)+"."+d.Name] = i
		}
	}
	comps, _ := dump["components"].([]any)
	for _, x := range comps {
		m := obj(x)
		name, _ := m["name"].(string)
		pkg, _ := m["package"].(string)
		id, ok := byKey[pkg+"."+name]
		if !ok {
			if _, of := c.owner(pkg); of {
				return fmt.Errorf("a component %s of package %q is listed", name, pkg)
			}
			continue // of another module
		}
		d := c.P.Types[id]
		if err := c.dumpField(d.T, m, true); err != nil {
			return fmt.Errorf("the component %s.%s: %w", pkg, name, err)
		}
		if got, _ := m["doc"].(string); got != DocText(d.Doc) {
			return fmt.Errorf("the component %s.%s has the doc %q, want %q", pkg, name, got, DocText(d.Doc))
		}
	}
	return nil
}

// owner is the package of the program with a path.
func (c *Ctx) owner(path string) (int, bool) {
	for i := range c.P.Pkgs {
		if i == 0 && path == "main" || i > 0 && c.P.PkgPath(i) == path {
			return i, true
		}
	}
	return 0, false
}

// dumpField compares the description of a type with the type; whole is set for
// the declaration of a component.
func (c *Ctx) dumpField(t TExpr, m object, whole bool) error {
	if whole {
		t = c.under(t)
	}
	t = c.norm(t)
	str := func(k string) string { s, _ := m[k].(string); return s }
	want, pkg := c.typeName(t)
	got := str("type")
	if n, ok := sameBasic[got]; ok {
		got = n
	}
	if want != "" && got != want {
		return fmt.Errorf("type %q, want %q", got, want)
	}
	if pkg != "" && !whole && str("package") != pkg {
		return fmt.Errorf("package %q of the type %s, want %q", str("package"), want, pkg)
	}
	elem := func(key string) error {
		n, p := c.typeName(*t.El)
		g := str(key)
		if s, ok := sameBasic[g]; ok {
			g = s
		}
		if n != "" && g != n {
			return fmt.Errorf("%s %q, want %q", key, g, n)
		}
		if p != "" && !whole && str("package") != p {
			return fmt.Errorf("package %q of a %s of %s, want %q", str("package"), want, n, p)
		}
		e, ok := m["elem"].(object)
		if !ok {
			return fmt.Errorf("no elem")
		}
		if err := c.dumpField(*t.El, e, false); err != nil {
			return fmt.Errorf("elem: %w", err)
		}
		return nil
	}
	switch t.K {
	case "slice":
		return elem("sliceType")
	case "array":
		if n := fmt.Sprint(m["arrayLength"]); n != strconv.Itoa(t.Len) {
			return fmt.Errorf("arrayLength %s, want %d", n, t.Len)
		}
		return elem("arrayType")
	case "map":
		n, p := c.typeName(*t.Key)
		g := str("mapKeyType")
		if s, ok := sameBasic[g]; ok {
			g = s
		}
		if g != n || str("mapKeyPackage") != p {
			return fmt.Errorf("the map has keys %q of package %q, want %q of %q", g, str("mapKeyPackage"), n, p)
		}
		return elem("mapValueType")
	case "struct":
		fields := obj(m["structFields"])
		want := map[string]bool{}
		for _, f := range t.Fields {
			isStruct := c.under(f.T).K == "struct"
			if !exportedOrEmbedded(f) || f.Embed && !isStruct && !exportedName(f.Name) {
				continue
			}
			want[f.Name] = true
			fm := obj(fields[f.Name])
			if fm == nil {
				return fmt.Errorf("the field %s is missing", f.Name)
			}
			if err := c.dumpField(f.T, fm, false); err != nil {
				return fmt.Errorf("field %s: %w", f.Name, err)
			}
			if emb, _ := fm["isEmbedded"].(bool); emb != (f.Embed && isStruct) {
				return fmt.Errorf("field %s: isEmbedded is %v", f.Name, emb)
			}
			if d, _ := fm["doc"].(string); d != DocText(f.Doc) {
				return fmt.Errorf("field %s: the doc is %q, want %q", f.Name, d, DocText(f.Doc))
			}
			if err := dumpTags(f, fm); err != nil {
				return fmt.Errorf("field %s: %w", f.Name, err)
			}
		}
		if keysOf(fields) != keysOf(want) {
			return fmt.Errorf("the fields are %s, want %s", keysOf(fields), keysOf(want))
		}
	}
	return nil
}

func exportedName(s string) bool { return ast.IsExported(s) }

// dumpTags compares the binding and validation tags of a field.
func dumpTags(f Field, m object) error {
	tags := obj(m["structFieldBindingTags"])
	any := false
	for _, v := range Views {
		val, ok := f.tag(v)
		t := obj(tags[v])
		any = any || ok
		if ok != (t != nil) {
			return fmt.Errorf("the %s tag %q is listed as %v", v, val, t)
		}
		if !ok {
			continue
		}
		name, hidden := fieldName(f, v)
		if hid, _ := t["not_shown"].(bool); hid != hidden {
			return fmt.Errorf("the %s tag %q is listed as %v", v, val, t)
		}
		if n, _ := t["name"].(string); !hidden && n != name {
			return fmt.Errorf("the %s tag %q has the name %q", v, val, n)
		}
		if o, _ := t["return_optional"].(bool); o != slices.Contains(strings.Split(val, ",")[1:], "omitempty") {
			return fmt.Errorf("the %s tag %q is listed as optional: %v", v, val, o)
		}
	}
	if t := obj(tags[""]); !any && t["name"] != f.Name {
		return fmt.Errorf("a field without binding tags is listed with %v", tags)
	}
	valid := obj(m["structFieldValidationTags"])
	for _, v := range []string{"binding", "validate"} {
		val, _ := f.tag(v)
		t := obj(valid[v])
		if req, _ := t["is_required"].(bool); req != slices.Contains(strings.Split(val, ","), "required") {
			return fmt.Errorf("the %s tag %q is listed as %v", v, val, t)
		}
	}
	return nil
}
