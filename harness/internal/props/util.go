package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/ls6-events/astra"
	"github.com/rs/zerolog"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"verif/harness/internal/core"
)

var dirCount atomic.Int64

// tmpDir makes a scratch directory of one case.
func tmpDir(r *core.Run) string {
	d := filepath.Join(r.Scratch, fmt.Sprintf("c%d", dirCount.Add(1)))
	if err := os.MkdirAll(d, 0o755); err != nil {
		core.Infraf("%v", err)
	}
	return d
}

func rmDir(r *core.Run, d string) {
	if strings.HasPrefix(d, r.Scratch+"/c") {
		_ = os.RemoveAll(d)
	}
}

// quietService is a service that logs nothing and works in dir.
func quietService(dir string) *astra.Service {
	return astra.New(astra.WithCustomLogger(zerolog.Nop()), astra.WithCustomWorkDir(dir))
}

// text draws text with what tends to go wrong in encoders.
var genText = rapid.Custom(func(t *rapid.T) string {
	special := []string{"", " ", "a", "API", "v1.0", "true", "null", "~", "12", "1e3", "0x1f", "yes", "2020-01-01", "a: b", "- x", "# no", "\"q\"", "'s'", "back\\slash", "<b>&amp;", "ünï", "日本語", "😀", "tab\tx", "line\nbreak", "trail \n", "\r\n", "%s%d", "{x}", "[y]", "*a", "&a", "!t", "|", ">", "@", "`", "\u2028", "\u0085", "\u00a0", "\x00", "\x7f", "$ref", "?", "a,b", "\ufeff", "=", "<<", "0o17", "1_000", ".inf", "-0"}
	switch rapid.IntRange(0, 3).Draw(t, "kind") {
	case 0:
		return rapid.SampledFrom(special).Draw(t, "s")
	case 1:
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(special), 0, 4).Draw(t, "parts"), "")
	case 2:
		return rapid.String().Draw(t, "any")
	default:
		return rapid.StringMatching(`[a-z]{1,8}`).Draw(t, "word")
	}
})

// decodeJSON decodes a document with exact numbers.
func decodeJSON(b []byte) (map[string]any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var m map[string]any
	if err := d.Decode(&m); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more than one document")
	}
	return m, nil
}

// decodeYAML decodes a document into the same shape as decodeJSON.
func decodeYAML(b []byte) (map[string]any, error) {
	var v any
	if err := yaml.Unmarshal(b, &v); err != nil {
		return nil, err
	}
	m, _ := yamlShape(v).(map[string]any)
	return m, nil
}

func yamlShape(v any) any {
	switch x := v.(type) {
	case map[string]any:
		out := map[string]any{}
		for k, e := range x {
			out[k] = yamlShape(e)
		}
		return out
	case map[any]any:
		out := map[string]any{}
		for k, e := range x {
			out[fmt.Sprint(k)] = yamlShape(e)
		}
		return out
	case []any:
		out := make([]any, len(x))
		for i := range x {
			out[i] = yamlShape(x[i])
		}
		return out
	case int, int64, uint64, float64, uint, int32:
		b, _ := json.Marshal(x)
		return json.Number(b)
	}
	return v
}

// canonical renders a value with sorted keys; numbers by value, empty lists and maps dropped from objects.
func canonical(v any) string {
	var b strings.Builder
	writeCanon(&b, v)
	return b.String()
}

func writeCanon(b *strings.Builder, v any) {
	switch x := v.(type) {
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteByte('{')
		for _, k := range keys {
			fmt.Fprintf(b, "%q:", k)
			writeCanon(b, x[k])
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case []any:
		b.WriteByte('[')
		for _, e := range x {
			writeCanon(b, e)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case json.Number:
		if f, err := x.Float64(); err == nil && strings.ContainsAny(string(x), ".eE") {
			fmt.Fprintf(b, "%g", f)
			return
		}
		b.WriteString(string(x))
	default:
		fmt.Fprintf(b, "%T:%#v", v, v)
	}
}

// firstDiff describes where two decoded documents differ.
func firstDiff(path string, a, b any) string {
	ma, oka := a.(map[string]any)
	mb, okb := b.(map[string]any)
	if oka && okb {
		for k := range ma {
			if _, ok := mb[k]; !ok {
				return fmt.Sprintf("%s.%s only on the left: %s", path, k, clip(js(ma[k])))
			}
		}
		for k := range mb {
			if _, ok := ma[k]; !ok {
				return fmt.Sprintf("%s.%s only on the right: %s", path, k, clip(js(mb[k])))
			}
			if d := firstDiff(path+"."+k, ma[k], mb[k]); d != "" {
				return d
			}
		}
		return ""
	}
	la, oka := a.([]any)
	lb, okb := b.([]any)
	if oka && okb && len(la) == len(lb) {
		for i := range la {
			if d := firstDiff(fmt.Sprintf("%s[%d]", path, i), la[i], lb[i]); d != "" {
				return d
			}
		}
		return ""
	}
	if canonical(a) != canonical(b) {
		return fmt.Sprintf("%s: %s and %s", path, clip(js(a)), clip(js(b)))
	}
	return ""
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// tree lists a directory: path to content, directories end in a slash.
func tree(dir string) map[string]string {
	out := map[string]string{}
	_ = filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case rel == ".":
		case info.IsDir():
			out[rel+"/"] = ""
		case info.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			out[rel] = "-> " + l
		default:
			b, _ := os.ReadFile(p)
			out[rel] = fmt.Sprintf("%o %s", info.Mode().Perm(), b)
		}
		return nil
	})
	return out
}

// treeDiff describes the first difference of two trees.
func treeDiff(a, b map[string]string) string {
	for _, k := range core.SortedKeys(a) {
		if _, ok := b[k]; !ok {
			return k + " is gone"
		}
		if a[k] != b[k] {
			return fmt.Sprintf("%s changed: %s", k, lineDiff(a[k], b[k]))
		}
	}
	for _, k := range core.SortedKeys(b) {
		if _, ok := a[k]; !ok {
			return k + " is new"
		}
	}
	return ""
}

func deepEq(a, b any) bool { return reflect.DeepEqual(a, b) }

// yamlSafe tells whether the YAML library itself keeps a text, at several depths.
func yamlSafe(s string) bool {
	plain := true
	for _, c := range s {
		plain = plain && (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z')
	}
	if plain {
		return true
	}
	if ok, known := yamlKnown.Load(s); known {
		return ok.(bool)
	}
	ok := yamlKeeps(s)
	if len(s) < 40 {
		yamlKnown.Store(s, ok)
	}
	return ok
}

var yamlKnown sync.Map

func yamlKeeps(s string) bool {
	var v any = map[string]any{"k": s, s: "v", "l": []any{s, map[string]any{"k": s, "z": "z"}}}
	for i := 0; i < 3; i++ {
		v = map[string]any{"n": v, "z": []any{s}}
	}
	b, err := yaml.Marshal(v)
	if err != nil {
		return false
	}
	var back any
	return yaml.Unmarshal(b, &back) == nil && reflect.DeepEqual(v, back)
}
