package props

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	"pgregory.net/rapid"
)

// svcState is the state of a service.
type svcState struct {
	Config     *astra.Config
	Inputs     []string
	Outputs    []svcOut
	Routes     []astra.Route
	Components []astra.Field
	Mapping    map[string]astra.TypeFormat
}

type svcOut struct {
	Mode   string
	Config map[string]any
}

// service builds a service in that state.
func (s svcState) service(dir string) *astra.Service {
	svc := quietService(dir)
	svc.Config = s.Config
	for _, m := range s.Inputs {
		svc.Inputs = append(svc.Inputs, astra.Input{Mode: astra.InputMode(m)})
	}
	for _, o := range s.Outputs {
		c := astra.IOConfiguration{}
		for k, v := range o.Config {
			c[astra.IOConfigurationKey(k)] = v
		}
		svc.Outputs = append(svc.Outputs, astra.Output{Mode: astra.OutputMode(o.Mode), Configuration: c})
	}
	svc.Routes = append(svc.Routes, cloneValue(s.Routes)...)
	svc.Components = append(svc.Components, cloneValue(s.Components)...)
	for k, v := range s.Mapping {
		astra.WithCustomTypeMappingSingle(k, v.Type, v.Format)(svc)
	}
	return svc
}

func cloneValue[T any](v T) T { return deepClone(reflect.ValueOf(v)).Interface().(T) }

func deepClone(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deepClone(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepClone(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, deepClone(v.MapIndex(k)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(deepClone(v.Field(i)))
			}
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(deepClone(v.Elem()))
		return n
	}
	return v
}

// snapshot renders what a cache has to keep of a service. Empty and missing
// lists and maps are the same, and so are equal numbers of different types in
// values of no type.
func snapshot(s *astra.Service) string {
	var b strings.Builder
	for _, p := range []struct {
		name string
		v    any
	}{{"config", s.Config}, {"inputs", s.Inputs}, {"outputs", s.Outputs}, {"routes", s.Routes}, {"components", s.Components}, {"mapping", s.CustomTypeMapping}} {
		fmt.Fprintf(&b, "%s=", p.name)
		dump(&b, reflect.ValueOf(p.v))
		b.WriteString("\n")
	}
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Func:
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dump(b, v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("any:")
		dump(b, v.Elem())
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i))
			b.WriteString(", ")
		}
		b.WriteString("]")
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		b.WriteString("{")
		for _, k := range keys {
			fmt.Fprintf(b, "%q: ", fmt.Sprint(k))
			dump(b, v.MapIndex(k))
			b.WriteString(", ")
		}
		b.WriteString("}")
	case reflect.Struct:
		b.WriteString("(")
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Kind() == reflect.Func || f.IsZero() || (f.Kind() == reflect.Slice || f.Kind() == reflect.Map) && f.Len() == 0 {
				continue
			}
			fmt.Fprintf(b, "%s: ", v.Type().Field(i).Name)
			dump(b, f)
			b.WriteString("; ")
		}
		b.WriteString(")")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if f == math.Trunc(f) && math.Abs(f) < 1e15 {
			fmt.Fprintf(b, "%d", int64(f))
			return
		}
		b.WriteString(strconv.FormatFloat(f, 'g', -1, 64))
	default:
		fmt.Fprint(b, v.Interface())
	}
}

// ---- generators ----

var (
	genIdent   = rapid.SampledFrom([]string{"User", "Order", "A", "B", "Item", "Page", "Größe", "X1"})
	genPkgPath = rapid.SampledFrom([]string{"main", "example.com/app/models", "example.com/app/x/models", "github.com/a/b", "models", "example.com/app/models.v2"})
	genBasic   = rapid.SampledFrom([]string{"string", "int", "int8", "int64", "uint64", "float32", "float64", "bool", "byte", "rune", "any"})
	// genSafeText is text that both encoders keep.
	genSafeText = rapid.Custom(func(t *rapid.T) string {
		s := genText.Draw(t, "text")
		if !yamlSafe(s) {
			return "x"
		}
		return s
	})
)

func genTags(t *rapid.T, name string) (astTraversal.BindingTagMap, astTraversal.ValidationTagMap) {
	var tags astTraversal.BindingTagMap
	for _, v := range astTraversal.BindingTags {
		if rapid.IntRange(0, 3).Draw(t, "tag?") == 0 {
			if tags == nil {
				tags = astTraversal.BindingTagMap{}
			}
			tags[v] = astTraversal.BindingTag{Name: rapid.OneOf(rapid.Just(name), rapid.SampledFrom([]string{"id", "user_name", "X-Id", "-", "a.b"})).Draw(t, "tname"),
				NotShown: rapid.IntRange(0, 4).Draw(t, "hid") == 0, ReturnOptional: rapid.Bool().Draw(t, "opt")}
		}
	}
	var val astTraversal.ValidationTagMap
	for _, v := range astTraversal.ValidationTags {
		if rapid.IntRange(0, 4).Draw(t, "val?") == 0 {
			if val == nil {
				val = astTraversal.ValidationTagMap{}
			}
			val[v] = astTraversal.ValidationTag{IsRequired: rapid.Bool().Draw(t, "req")}
		}
	}
	return tags, val
}

var genEnum = rapid.Custom(func(t *rapid.T) any {
	switch rapid.IntRange(0, 5).Draw(t, "ek") {
	case 0:
		return rapid.Int64().Draw(t, "i")
	case 1:
		return uint64(math.MaxUint64) - uint64(rapid.IntRange(0, 3).Draw(t, "u"))
	case 2:
		return rapid.SampledFrom([]float64{0.5, -1.25, 1e-7, 3e20, 2, 1.0 / 3}).Draw(t, "f")
	case 3:
		return rapid.Bool().Draw(t, "b")
	default:
		return genSafeText.Draw(t, "s")
	}
})

// drawField draws a field as the analysis makes them.
func drawField(t *rapid.T, depth int) astra.Field {
	f := astra.Field{}
	kind := rapid.IntRange(0, 6).Draw(t, "fk")
	if depth <= 0 && kind >= 3 {
		kind = kind % 3
	}
	switch kind {
	case 0, 1:
		f.Type = genBasic.Draw(t, "basic")
	case 2:
		f.Type, f.Package = genIdent.Draw(t, "ref"), genPkgPath.Draw(t, "pkg")
	case 3:
		e := drawField(t, depth-1)
		f.Type, f.SliceType, f.Package, f.Elem = "slice", e.Type, e.Package, &e
	case 4:
		e := drawField(t, depth-1)
		f.Type, f.ArrayType, f.Package, f.Elem, f.ArrayLength = "array", e.Type, e.Package, &e, int64(rapid.IntRange(0, 9).Draw(t, "len"))
	case 5:
		e := drawField(t, depth-1)
		f.Type, f.MapKeyType, f.MapValueType, f.Package, f.Elem = "map", genBasic.Draw(t, "key"), e.Type, e.Package, &e
		f.MapKeyPackage = rapid.SampledFrom([]string{"", "", "main", "example.com/k"}).Draw(t, "kpkg")
	default:
		f = drawStruct(t, depth-1)
	}
	if rapid.IntRange(0, 3).Draw(t, "doc?") == 0 {
		f.Doc = genSafeText.Draw(t, "doc")
	}
	if rapid.IntRange(0, 5).Draw(t, "old?") == 0 && f.Elem != nil && f.Elem.Type != "struct" {
		f.Elem = nil // as custom functions write them
	}
	f.IsRequired = rapid.IntRange(0, 4).Draw(t, "req") == 0
	return f
}

func drawStruct(t *rapid.T, depth int) astra.Field {
	f := astra.Field{Type: "struct", StructFields: map[string]astra.Field{}}
	for i := rapid.IntRange(0, 4).Draw(t, "sf"); i > 0; i-- {
		name := fmt.Sprintf("F%d", i)
		sub := drawField(t, depth)
		sub.Name = name
		if rapid.IntRange(0, 4).Draw(t, "emb") == 0 {
			sub = astra.Field{Name: name, Type: genIdent.Draw(t, "etype"), Package: genPkgPath.Draw(t, "epkg"), IsEmbedded: true}
		}
		sub.StructFieldBindingTags, sub.StructFieldValidationTags = genTags(t, name)
		f.StructFields[name] = sub
	}
	return f
}

func drawParam(t *rapid.T) astra.Param {
	p := astra.Param{Name: genSafeText.Draw(t, "pname"), Field: astra.Field{Type: "string"}, IsRequired: rapid.Bool().Draw(t, "preq")}
	switch rapid.IntRange(0, 4).Draw(t, "pk") {
	case 0:
		p.IsArray = true
	case 1:
		p.IsMap = true
	case 2:
		p.IsBound = true
		p.Name = ""
		p.Field = astra.Field{Type: genIdent.Draw(t, "ref"), Package: genPkgPath.Draw(t, "pkg")}
	}
	return p
}

func drawRoute(t *rapid.T, i int) astra.Route {
	r := astra.Route{
		Handler: "example.com/app." + genIdent.Draw(t, "handler") + strconv.Itoa(i),
		File:    rapid.SampledFrom([]string{"main.go", "../x/a b.go", "h/handlers.go", ""}).Draw(t, "file"),
		LineNo:  rapid.IntRange(0, 9999).Draw(t, "line"),
		Method:  rapid.SampledFrom([]string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE"}).Draw(t, "method"),
		Path:    fmt.Sprintf("/r%d", i) + rapid.SampledFrom([]string{"", "/:id", "/:id/items/:item", "/*rest", "/a.b:c", "/ü"}).Draw(t, "path"),
		Doc:     genSafeText.Draw(t, "doc"), OperationID: rapid.SampledFrom([]string{"", "getX", "Y1"}).Draw(t, "op"),
	}
	for _, seg := range strings.Split(r.Path, "/") {
		if len(seg) > 1 && (seg[0] == ':' || seg[0] == '*') {
			r.PathParams = append(r.PathParams, astra.Param{Name: seg[1:], IsRequired: seg[0] == ':', Field: astra.Field{Type: rapid.SampledFrom([]string{"string", "int", "bool", "float64", "uint32"}).Draw(t, "ptype")}})
		}
	}
	for n := rapid.IntRange(0, 2).Draw(t, "q"); n > 0; n-- {
		r.QueryParams = append(r.QueryParams, drawParam(t))
	}
	for n := rapid.IntRange(0, 2).Draw(t, "h"); n > 0; n-- {
		r.RequestHeaders = append(r.RequestHeaders, drawParam(t))
	}
	for n := rapid.IntRange(0, 2).Draw(t, "rh"); n > 0; n-- {
		r.ResponseHeaders = append(r.ResponseHeaders, drawParam(t))
	}
	for n := rapid.IntRange(0, 2).Draw(t, "b"); n > 0; n-- {
		p := drawParam(t)
		r.Body = append(r.Body, astra.BodyParam{Name: p.Name, Field: p.Field, IsRequired: p.IsRequired, IsArray: p.IsArray, IsMap: p.IsMap, IsBound: p.IsBound,
			ContentType: rapid.SampledFrom([]string{"application/json", "application/x-www-form-urlencoded", "multipart/form-data", "application/xml"}).Draw(t, "bct")})
	}
	for n := rapid.IntRange(0, 3).Draw(t, "rt"); n > 0; n-- {
		r.ReturnTypes = append(r.ReturnTypes, astra.ReturnType{StatusCode: rapid.SampledFrom([]int{200, 201, 400, 404, 500}).Draw(t, "status"),
			ContentType: rapid.SampledFrom([]string{"application/json", "application/xml", "text/plain", ""}).Draw(t, "ct"), Field: drawField(t, 2)})
	}
	return r
}

var genState = rapid.Custom(func(t *rapid.T) svcState {
	var s svcState
	if rapid.IntRange(0, 4).Draw(t, "config?") > 0 {
		c := genConfig.Draw(t, "config")
		for _, f := range []*string{&c.Title, &c.Description, &c.Version, &c.Contact.Name, &c.Contact.URL, &c.Contact.Email, &c.License.Name, &c.License.URL, &c.Host, &c.BasePath} {
			if !yamlSafe(*f) {
				*f = "x"
			}
		}
		s.Config = &c
	}
	s.Inputs = rapid.SliceOfN(rapid.SampledFrom([]string{"gin", "echo", "in put"}), 0, 3).Draw(t, "inputs")
	for n := rapid.IntRange(0, 3).Draw(t, "outs"); n > 0; n-- {
		o := svcOut{Mode: rapid.SampledFrom([]string{"openapi", "json", "azureFunctions", "own"}).Draw(t, "mode"), Config: map[string]any{}}
		for m := rapid.IntRange(0, 2).Draw(t, "ks"); m > 0; m-- {
			k := rapid.SampledFrom([]string{"filePath", "directoryPath", "other"}).Draw(t, "k")
			o.Config[k] = rapid.OneOf(genSafeText.AsAny(), rapid.Bool().AsAny(), rapid.IntRange(-9, 99).AsAny()).Draw(t, "v")
		}
		s.Outputs = append(s.Outputs, o)
	}
	for n := rapid.IntRange(0, 3).Draw(t, "routes"); n > 0; n-- {
		s.Routes = append(s.Routes, drawRoute(t, n))
	}
	seen := map[string]bool{}
	for n := rapid.IntRange(0, 4).Draw(t, "comps"); n > 0; n-- {
		f := drawField(t, 2)
		f.Name, f.Package = genIdent.Draw(t, "cname"), genPkgPath.Draw(t, "cpkg")
		if seen[f.Package+"."+f.Name] {
			continue
		}
		seen[f.Package+"."+f.Name] = true
		if f.Type != "struct" && f.Elem == nil && f.SliceType == "" && f.ArrayType == "" && f.MapValueType == "" {
			f.Type = rapid.SampledFrom([]string{"string", "int", "float64", "bool"}).Draw(t, "etype")
			f.EnumValues = rapid.SliceOfN(genEnum, 0, 4).Draw(t, "enum")
		}
		s.Components = append(s.Components, f)
	}
	for n := rapid.IntRange(0, 3).Draw(t, "maps"); n > 0; n-- {
		if s.Mapping == nil {
			s.Mapping = map[string]astra.TypeFormat{}
		}
		k := genPkgPath.Draw(t, "mpkg") + "." + genIdent.Draw(t, "mname")
		s.Mapping[k] = astra.TypeFormat{Type: rapid.SampledFrom([]string{"string", "integer", "", "object"}).Draw(t, "mt"), Format: genSafeText.Draw(t, "mf")}
	}
	return s
})
