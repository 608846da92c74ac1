package prog

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/iancoleman/strcase"
)

// Cmp says what of a document is compared with the model.
type Cmp struct {
	Paths, Responses, Requests bool
	Docs, OpIDs, Enums         bool
	RespHeaders                bool
}

// CmpAll compares everything.
var CmpAll = Cmp{Paths: true, Responses: true, Requests: true, Docs: true, OpIDs: true, Enums: true, RespHeaders: true}

type comparer struct {
	c       *Ctx
	opts    Cmp
	schemas map[string]any
	owner   map[string]string // component -> Go type
	memo    map[[3]string]bool
	depth   int
}

type object = map[string]any

func obj(v any) object {
	m, _ := v.(object)
	return m
}

func short(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint(v)
	}
	if len(b) > 600 {
		return string(b[:600]) + "..."
	}
	return string(b)
}

// CompareDoc compares an OpenAPI document with the model of the program.
func (c *Ctx) CompareDoc(doc map[string]any, opts Cmp) error {
	k := c.comparer(doc, opts)
	paths := obj(doc["paths"])
	want := map[string]bool{}
	for _, r := range c.P.Routes {
		op := c.Expect(r)
		want[op.Method+" "+op.Path] = true
		got := obj(obj(paths[op.Path])[op.Method])
		where := fmt.Sprintf("%s %s (handler %s)", r.Method, r.Path, c.P.Funcs[r.Fn].Name)
		if got == nil {
			return fmt.Errorf("%s is not documented", where)
		}
		if err := k.operation(op, got); err != nil {
			return fmt.Errorf("%s: %w", where, err)
		}
	}
	if opts.Paths {
		for p, item := range paths {
			for m := range obj(item) {
				if !want[m+" "+p] {
					return fmt.Errorf("%s %s is documented but not registered", m, p)
				}
			}
		}
	}
	return nil
}

func (c *Ctx) comparer(doc map[string]any, opts Cmp) *comparer {
	return &comparer{c: c, opts: opts, schemas: obj(obj(doc["components"])["schemas"]), owner: map[string]string{}, memo: map[[3]string]bool{}}
}

// CompareOp compares a single operation object with its model.
func (c *Ctx) CompareOp(doc map[string]any, r Route, opts Cmp) error {
	k := c.comparer(doc, opts)
	op := c.Expect(r)
	return k.operation(op, obj(obj(obj(doc["paths"])[op.Path])[op.Method]))
}

func (k *comparer) operation(op *ExpOp, got object) error {
	fn := k.c.P.Funcs[op.Fn]
	if k.opts.Docs {
		desc, _ := got["description"].(string)
		if desc != op.Doc {
			return fmt.Errorf("description is %q, want %q", desc, op.Doc)
		}
	}
	if k.opts.OpIDs {
		id, _ := got["operationId"].(string)
		want := ""
		if fn.Kind == "named" {
			want = strcase.ToLowerCamel(fn.Name)
		}
		if id != want {
			return fmt.Errorf("operationId is %q, want %q", id, want)
		}
	}
	if k.opts.Responses {
		if err := k.responses(op, got); err != nil {
			return err
		}
	}
	if k.opts.Requests {
		if err := k.params(op, got); err != nil {
			return err
		}
		if err := k.bodies(op, got); err != nil {
			return err
		}
	}
	return nil
}

func keysOf[V any](m map[string]V) string { return "[" + strings.Join(sortedKeys(m), " ") + "]" }

func (k *comparer) responses(op *ExpOp, got object) error {
	rs := obj(got["responses"])
	want := map[string]map[string][]Shape{}
	for st, cts := range op.Resp {
		want[strconv.Itoa(st)] = cts
	}
	if keysOf(rs) != keysOf(want) {
		return fmt.Errorf("responses are documented for %s, want %s", keysOf(rs), keysOf(want))
	}
	for st, cts := range want {
		r := obj(rs[st])
		content := obj(r["content"])
		if keysOf(content) != keysOf(cts) {
			return fmt.Errorf("response %s has content types %s, want %s", st, keysOf(content), keysOf(cts))
		}
		for ct, shapes := range cts {
			if err := k.shapes(shapes, obj(content[ct])["schema"]); err != nil {
				return fmt.Errorf("response %s %s: %w", st, ct, err)
			}
		}
		if _, ok := r["description"].(string); !ok {
			return fmt.Errorf("response %s has no description", st)
		}
		if !k.opts.RespHeaders {
			continue
		}
		hs := obj(r["headers"])
		if keysOf(hs) != keysOf(op.RespHeaders) {
			return fmt.Errorf("response %s has headers %s, want %s", st, keysOf(hs), keysOf(op.RespHeaders))
		}
		for h, v := range hs {
			if err := k.shape(Shape{Kind: "scalar"}, obj(v)["schema"]); err != nil {
				return fmt.Errorf("response header %s: %w", h, err)
			}
			if rest := without(obj(v), "schema", "required"); len(rest) > 0 || obj(v)["required"] == true {
				return fmt.Errorf("response header %s: %s", h, short(v))
			}
		}
	}
	return nil
}

func (k *comparer) params(op *ExpOp, got object) error {
	list, _ := got["parameters"].([]any)
	seen := map[PKey]bool{}
	for _, p := range list {
		m := obj(p)
		name, _ := m["name"].(string)
		in, _ := m["in"].(string)
		key := PKey{name, in}
		if name == "" {
			return fmt.Errorf("a %s parameter without a name is documented", in)
		}
		if seen[key] {
			return fmt.Errorf("%s parameter %q is documented twice", in, name)
		}
		seen[key] = true
		shapes, ok := op.Params[key]
		if !ok {
			return fmt.Errorf("%s parameter %q is documented but not read", in, name)
		}
		if err := k.shapes(shapes, m["schema"]); err != nil {
			return fmt.Errorf("%s parameter %q: %w", in, name, err)
		}
		if in == "path" {
			if req, _ := m["required"].(bool); req != op.Required[key] {
				return fmt.Errorf("path parameter %q: required is %v", name, req)
			}
		} else if req, _ := m["required"].(bool); req {
			return fmt.Errorf("%s parameter %q is documented as required", in, name)
		}
		// how values are written: gin reads maps as name[key]=value and arrays as repeated names, which is the default
		style, _ := m["style"].(string)
		explode, set := m["explode"].(bool)
		for _, w := range shapes[:1] {
			switch {
			case in != "query":
				if style != "" && style != "simple" {
					return fmt.Errorf("%s parameter %q has the style %q", in, name, style)
				}
			case w.Kind == "map" && len(shapes) == 1:
				if style != "deepObject" || set && !explode {
					return fmt.Errorf("query parameter %q is a map and has the style %q, explode %v", name, style, explode)
				}
			case len(shapes) == 1 && w.Kind != "type":
				if style != "" && style != "form" || set && !explode {
					return fmt.Errorf("query parameter %q is a %s and has the style %q, explode %v", name, w.Kind, style, explode)
				}
			}
		}
	}
	for key := range op.Params {
		if !seen[key] {
			return fmt.Errorf("%s parameter %q is read but not documented", key.In, key.Name)
		}
	}
	return nil
}

func (k *comparer) bodies(op *ExpOp, got object) error {
	content := obj(obj(got["requestBody"])["content"])
	if keysOf(content) != keysOf(op.Body) {
		return fmt.Errorf("request bodies are documented for %s, want %s", keysOf(content), keysOf(op.Body))
	}
	for ct, b := range op.Body {
		s := obj(content[ct])["schema"]
		if err := k.body(b, s, strings.Contains(ct, "form")); err != nil {
			return fmt.Errorf("request body %s: %w", ct, err)
		}
	}
	return nil
}

func (k *comparer) body(b *ExpBody, s any, form bool) error {
	if !form || len(b.Fields) == 0 {
		var shapes []Shape
		distinct := map[string]bool{}
		for _, t := range b.Bound {
			distinct[short(t)] = true
			shapes = append(shapes, Shape{Kind: "type", T: t, View: b.View})
		}
		if !form || len(distinct) == 1 {
			return k.shapes(shapes, s)
		}
	}
	want := map[string][]Shape{}
	for n, sh := range b.Fields {
		want[n] = append(want[n], sh...)
	}
	for _, t := range b.Bound {
		for _, p := range k.c.flatProps(t, b.View) {
			want[p.Name] = append(want[p.Name], Shape{Kind: "type", T: p.T, View: b.View})
		}
	}
	got := map[string][]any{}
	if err := k.flatten(s, got, nil); err != nil {
		return err
	}
	if keysOf(got) != keysOf(want) {
		return fmt.Errorf("fields are %s, want %s", keysOf(got), keysOf(want))
	}
	for n, ss := range got {
		for _, s := range ss {
			if err := k.shapes(want[n], s); err != nil {
				return fmt.Errorf("field %s: %w", n, err)
			}
		}
	}
	return nil
}

// flatten collects the properties of an object schema, with those of its parts.
func (k *comparer) flatten(s any, into map[string][]any, seen []string) error {
	m := obj(s)
	if ref, ok := m["$ref"].(string); ok {
		if slices.Contains(seen, ref) {
			return nil
		}
		_, sub, err := k.resolve(ref)
		if err != nil {
			return err
		}
		return k.flatten(sub, into, append(slices.Clone(seen), ref))
	}
	for n, p := range obj(m["properties"]) {
		into[n] = append(into[n], p)
	}
	parts, _ := m["allOf"].([]any)
	for _, p := range parts {
		if err := k.flatten(p, into, seen); err != nil {
			return err
		}
	}
	return nil
}

const refPrefix = "#/components/schemas/"

func (k *comparer) resolve(ref string) (name string, schema object, err error) {
	name, ok := strings.CutPrefix(ref, refPrefix)
	if !ok {
		return "", nil, fmt.Errorf("reference %q is not to a component", ref)
	}
	s, ok := k.schemas[name]
	if !ok {
		return "", nil, fmt.Errorf("reference %q does not resolve", ref)
	}
	return name, obj(s), nil
}

// shapes: any of several readings of one name may be documented.
func (k *comparer) shapes(want []Shape, s any) error {
	var first error
	for _, w := range want {
		saved := k.snapshot()
		err := k.shape(w, s)
		if err == nil {
			return nil
		}
		k.restore(saved)
		if first == nil {
			first = err
		}
	}
	return first
}

type cmpState struct {
	owner map[string]string
	memo  map[[3]string]bool
}

func (k *comparer) snapshot() cmpState {
	st := cmpState{map[string]string{}, map[[3]string]bool{}}
	for a, b := range k.owner {
		st.owner[a] = b
	}
	for a, b := range k.memo {
		st.memo[a] = b
	}
	return st
}

func (k *comparer) restore(s cmpState) { k.owner, k.memo = s.owner, s.memo }

func exactly(s any, want object) error {
	if s == nil {
		s = object{}
	}
	if !reflect.DeepEqual(s, want) {
		return fmt.Errorf("schema is %s, want %s", short(s), short(want))
	}
	return nil
}

func (k *comparer) shape(w Shape, s any) error {
	str := object{"type": "string"}
	switch w.Kind {
	case "scalar":
		return exactly(s, str)
	case "array":
		return exactly(s, object{"type": "array", "items": str})
	case "map":
		return exactly(s, object{"type": "object", "additionalProperties": str})
	case "file":
		return exactly(s, object{"type": "string", "format": "binary"})
	}
	return k.match(w.T, w.View, s)
}

var basicSchemas = map[string]object{
	"string": {"type": "string"}, "bool": {"type": "boolean"},
	"int": {"type": "integer", "format": "int32"}, "int8": {"type": "integer", "format": "int8"}, "int16": {"type": "integer", "format": "int16"},
	"int32": {"type": "integer", "format": "int32"}, "int64": {"type": "integer", "format": "int64"},
	"uint": {"type": "integer", "format": "uint"}, "uint8": {"type": "integer", "format": "uint8"}, "uint16": {"type": "integer", "format": "uint16"},
	"uint32": {"type": "integer", "format": "uint32"}, "uint64": {"type": "integer", "format": "uint64"},
	"float32": {"type": "number", "format": "float32"}, "float64": {"type": "number", "format": "float64"},
	"byte": {"type": "string", "format": "byte"}, "rune": {"type": "string", "format": "rune"},
}

func typeFormat(m Mapping) object {
	if m.Type == "" {
		return object{}
	}
	o := object{"type": m.Type}
	if m.Format != "" {
		o["format"] = m.Format
	}
	return o
}

var unsafeName = regexp.MustCompile(`[^a-zA-Z0-9._-]+`)

// safeName is the name of a component for text that can have characters that are not allowed in it.
func safeName(s string) string { return unsafeName.ReplaceAllString(s, "_") }

// NamesType tells whether the end of the name of a component is the name of a type.
// Different names can be the same without their letters outside of ASCII; then they are numbered.
func NamesType(name, typ string) bool {
	safe := safeName(typ)
	if name == safe || safe == typ {
		return name == safe
	}
	n, ok := strings.CutPrefix(name, safe+"_")
	_, err := strconv.Atoi(n)
	return ok && err == nil
}

// match compares the schema used where a type is.
func (k *comparer) match(t TExpr, view string, s any) error {
	k.depth++
	defer func() { k.depth-- }()
	if k.depth > 200 {
		return fmt.Errorf("schema nests too deep")
	}
	t = k.c.norm(t)
	m := obj(s)
	ref, isRef := m["$ref"].(string)
	if isRef && len(m) > 1 {
		return fmt.Errorf("a reference with siblings: %s", short(m))
	}
	key, named := "", false
	switch t.K {
	case "named":
		key, named = k.c.TypeKey(t.ID), true
	case "ext":
		key, named = t.B, true
	}
	if isRef {
		name, comp, err := k.resolve(ref)
		if err != nil {
			return err
		}
		if !named {
			return fmt.Errorf("%s is a reference to %s, but the type %s has no name", short(m), name, k.c.P.TypeString(t))
		}
		last := key[strings.LastIndex(key, ".")+1:]
		if !NamesType(name[strings.LastIndex(name, ".")+1:], last) {
			return fmt.Errorf("a %s is documented as %s", key, name)
		}
		if o, ok := k.owner[name]; ok && o != key {
			return fmt.Errorf("component %s is used for %s and for %s", name, o, key)
		}
		k.owner[name] = key
		mk := [3]string{key, view, name}
		if k.memo[mk] {
			return nil
		}
		k.memo[mk] = true
		if err := k.define(t, view, comp); err != nil {
			return fmt.Errorf("component %s: %w", name, err)
		}
		return nil
	}
	if t.K == "named" {
		u := k.c.under(t)
		if _, mapped := k.c.mapping(t); !mapped && !slices.Contains([]string{"any", "iface", "func", "chan"}, u.K) {
			return fmt.Errorf("the named type %s is not referenced but documented as %s", key, short(s))
		}
	}
	return k.define(t, view, s)
}

// define compares the schema that a type is described by.
func (k *comparer) define(t TExpr, view string, sv any) error {
	s := obj(sv)
	enum, hasEnum := s["enum"]
	if m, ok := k.c.mapping(t); ok {
		return exactly(without(s, "description"), typeFormat(m))
	}
	if t.K == "named" && k.opts.Docs {
		d := k.c.P.Types[t.ID]
		desc, _ := s["description"].(string)
		if want := DocText(d.Doc); desc != want && !k.docAmbiguous(t.ID) {
			return fmt.Errorf("description is %q, want %q", desc, want)
		}
	}
	if t.K == "ext" {
		switch t.B {
		case "error":
			return exactly(without(s, "description"), object{"type": "string"})
		case "time.Duration":
			return exactly(without(s, "description"), object{"type": "integer", "format": "int32"})
		case "gin.H":
			return exactly(without(s, "description"), object{"type": "object", "additionalProperties": object{}})
		}
		return fmt.Errorf("unmapped ext type %s", t.B)
	}
	u := k.c.under(t)
	s = without(s, "description")
	switch u.K {
	case "basic":
		s = without(s, "enum")
		if k.opts.Enums {
			if err := k.enum(t, enum, hasEnum); err != nil {
				return err
			}
		}
		return exactly(s, basicSchemas[u.B])
	case "ext":
		return k.define(u, view, s)
	case "any", "iface", "func", "chan":
		return exactly(s, object{})
	case "slice", "array":
		want := object{"type": "array"}
		if u.K == "array" && u.Len > 0 {
			want["maxItems"] = json.Number(strconv.Itoa(u.Len))
		}
		if err := exactly(without(s, "items"), want); err != nil {
			return err
		}
		if err := k.match(*u.El, view, s["items"]); err != nil {
			return fmt.Errorf("items: %w", err)
		}
		return nil
	case "map":
		if err := exactly(without(s, "additionalProperties"), object{"type": "object"}); err != nil {
			return err
		}
		if err := k.match(*u.El, view, s["additionalProperties"]); err != nil {
			return fmt.Errorf("map values: %w", err)
		}
		return nil
	case "struct":
		return k.strct(u, k.c.resolveView(u, view), s)
	}
	return fmt.Errorf("no model of %s", u.K)
}

func (k *comparer) docAmbiguous(id int) bool { return false }

func without(m object, keys ...string) object {
	out := object{}
	for a, b := range m {
		if !slices.Contains(keys, a) {
			out[a] = b
		}
	}
	return out
}

func (k *comparer) strct(u TExpr, view string, s object) error {
	own, embedded := k.c.props(u, view)
	if err := exactly(without(s, "properties", "allOf"), object{"type": "object"}); err != nil {
		return err
	}
	got := map[string]any{}
	add := func(m object) error {
		for n, p := range obj(m["properties"]) {
			if _, dup := got[n]; dup {
				return fmt.Errorf("property %s twice", n)
			}
			got[n] = p
		}
		return nil
	}
	if err := add(s); err != nil {
		return err
	}
	parts, _ := s["allOf"].([]any)
	var refs []any
	for _, p := range parts {
		m := obj(p)
		if _, ok := m["$ref"]; ok {
			refs = append(refs, p)
			continue
		}
		if err := exactly(without(m, "properties", "type"), object{}); err != nil {
			return err
		}
		if err := add(m); err != nil {
			return err
		}
	}
	want := map[string]Prop{}
	for _, p := range own {
		want[p.Name] = p
	}
	// fields that cannot be encoded may be left out
	for n, p := range want {
		if uk := k.c.under(p.T).K; uk == "func" || uk == "chan" {
			if _, ok := got[n]; !ok {
				delete(want, n)
			}
		}
	}
	if keysOf(got) != keysOf(want) {
		return fmt.Errorf("%s properties are %s, want %s", view, keysOf(got), keysOf(want))
	}
	for _, n := range sortedKeys(got) {
		if err := k.match(want[n].T, view, without(obj(got[n]), "description")); err != nil {
			return fmt.Errorf("property %s: %w", n, err)
		}
	}
	if len(refs) != len(embedded) {
		return fmt.Errorf("%d promoted structs, want %d: %s", len(refs), len(embedded), short(parts))
	}
	for _, e := range embedded {
		var last error
		found := false
		for i, r := range refs {
			st := k.snapshot()
			if err := k.match(e, view, r); err != nil {
				k.restore(st)
				if last == nil || !strings.Contains(err.Error(), "is documented as") {
					last = err
				}
				continue
			}
			refs = slices.Delete(slices.Clone(refs), i, i+1)
			found = true
			break
		}
		if !found {
			return fmt.Errorf("embedded %s: %w", k.c.P.TypeString(e), last)
		}
	}
	return nil
}

func (k *comparer) enum(t TExpr, enum any, has bool) error {
	var want map[int][]any
	total := 0
	if t.K == "named" {
		d := k.c.P.Types[t.ID]
		want = d.EnumValues()
		for _, v := range want {
			total += len(v)
		}
	}
	got, _ := enum.([]any)
	if total == 0 {
		if has {
			return fmt.Errorf("an enum of %s for a type without constants", short(enum))
		}
		return nil
	}
	// the files in any order, each in its own
	files := make([]int, 0, len(want))
	for f := range want {
		files = append(files, f)
	}
	sort.Ints(files)
	if permMatch(got, want, files) {
		return nil
	}
	return fmt.Errorf("enum is %s, want the values of each file: %s", short(got), short(want))
}

func permMatch(got []any, want map[int][]any, files []int) bool {
	if len(files) == 0 {
		return len(got) == 0
	}
	for i, f := range files {
		w := want[f]
		if len(got) < len(w) {
			continue
		}
		ok := true
		for j := range w {
			if !sameJSON(got[j], w[j]) {
				ok = false
				break
			}
		}
		if ok && permMatch(got[len(w):], want, slices.Delete(slices.Clone(files), i, i+1)) {
			return true
		}
	}
	return false
}

// sameJSON compares a decoded value (numbers exact) with a value of the model.
func sameJSON(a, b any) bool {
	if n, ok := a.(json.Number); ok {
		var bn string
		switch x := b.(type) {
		case json.Number:
			bn = x.String()
		case int:
			bn = strconv.Itoa(x)
		case float64:
			bn = strconv.FormatFloat(x, 'g', -1, 64)
		default:
			return false
		}
		if n.String() == bn {
			return true
		}
		x, err1 := strconv.ParseInt(n.String(), 10, 64)
		y, err2 := strconv.ParseInt(bn, 10, 64)
		if err1 == nil && err2 == nil {
			return x == y
		}
		f, err1 := strconv.ParseFloat(n.String(), 64)
		g, err2 := strconv.ParseFloat(bn, 64)
		isInt := func(s string) bool { return !strings.ContainsAny(s, ".eE") }
		return err1 == nil && err2 == nil && f == g && !(isInt(n.String()) && isInt(bn))
	}
	return reflect.DeepEqual(a, b)
}

// TypeString renders a type for messages.
func (p *Program) TypeString(t TExpr) string {
	switch t.K {
	case "basic", "ext":
		return t.B
	case "named":
		return p.PkgPath(p.Types[t.ID].Pkg) + "." + p.Types[t.ID].Name
	case "ptr":
		return "*" + p.TypeString(*t.El)
	case "slice":
		return "[]" + p.TypeString(*t.El)
	case "array":
		return fmt.Sprintf("[%d]%s", t.Len, p.TypeString(*t.El))
	case "map":
		return "map[" + p.TypeString(*t.Key) + "]" + p.TypeString(*t.El)
	}
	return t.K
}
