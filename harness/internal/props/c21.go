package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"slices"
	"strconv"
	"strings"

	"github.com/ls6-events/astra/astTraversal"
	"pgregory.net/rapid"

	"verif/harness/internal/core"
	"verif/harness/internal/prog"
)

// tagCase is a struct field and the parts of its tag.
type tagCase struct {
	Field string
	Parts []tagPart
	Sep   string
}

type tagPart struct {
	Key, Name string
	Opts      []string
}

func (p tagPart) value() string { return strings.Join(append([]string{p.Name}, p.Opts...), ",") }

func (c tagCase) tag() string {
	var parts []string
	for _, p := range c.Parts {
		parts = append(parts, p.Key+":"+strconv.Quote(p.value()))
	}
	return strings.Join(parts, c.Sep)
}

var genTag = rapid.Custom(func(t *rapid.T) tagCase {
	keys := append(slices.Clone(prog.Views), "binding", "validate", "db", "jsonx", "JSON", "x")
	c := tagCase{Field: rapid.SampledFrom([]string{"ID", "UserName", "X", "Ünï", "A_b"}).Draw(t, "field"), Sep: rapid.SampledFrom([]string{" ", "  "}).Draw(t, "sep")}
	names := rapid.OneOf(rapid.SampledFrom([]string{"", "-", "id", "user_name", "omitempty", "required", "ID", "X-Request-Id", "a.b", "a b", "größe", "q\"q", "a\\b", "--", "- ", "UserName"}), rapid.StringMatching(`[a-zA-Z0-9_.\-]{1,8}`))
	opts := rapid.OneOf(rapid.SampledFrom([]string{"omitempty", "required", "string", "", "min=1", "omitempty ", "required_without=X", "xomitempty", "dive", "-", "oneof=a b", "notrequired", "attr"}), rapid.StringMatching(`[a-z=]{1,6}`))
	for _, k := range rapid.SliceOfNDistinct(rapid.SampledFrom(keys), 0, 7, rapid.ID[string]).Draw(t, "keys") {
		c.Parts = append(c.Parts, tagPart{k, names.Draw(t, "name"), rapid.SliceOfN(opts, 0, 3).Draw(t, "opts")})
	}
	return c
})

func (c tagCase) check() error {
	bind, valid := map[astTraversal.BindingTagType]astTraversal.BindingTag{}, map[astTraversal.ValidationTagType]bool{}
	for _, p := range c.Parts {
		switch {
		case p.Key == "binding" || p.Key == "validate":
			if slices.Contains(append([]string{p.Name}, p.Opts...), "required") {
				valid[astTraversal.ValidationTagType(p.Key)] = true
			}
		case slices.Contains(prog.Views, p.Key):
			b := astTraversal.BindingTag{Name: p.Name, ReturnOptional: slices.Contains(p.Opts, "omitempty")}
			if p.Name == "" {
				b.Name = c.Field
			}
			if p.Name == "-" && len(p.Opts) == 0 {
				b = astTraversal.BindingTag{NotShown: true}
			}
			bind[astTraversal.BindingTagType(p.Key)] = b
		}
	}
	if len(bind) == 0 {
		bind[astTraversal.NoBindingTag] = astTraversal.BindingTag{Name: c.Field}
	}
	gotBind, gotValid := astTraversal.ParseStructTag(c.Field, c.tag())
	if !reflect.DeepEqual(map[astTraversal.BindingTagType]astTraversal.BindingTag(gotBind), bind) {
		return fmt.Errorf("the tag %s of the field %s has the binding tags %v, want %v", c.tag(), c.Field, gotBind, bind)
	}
	for k, v := range gotValid {
		if v.IsRequired != valid[k] {
			return fmt.Errorf("the tag %s: required by %s: %v, want %v", c.tag(), k, v.IsRequired, valid[k])
		}
		delete(valid, k)
	}
	for k := range valid {
		return fmt.Errorf("the tag %s demands nothing by %s", c.tag(), k)
	}
	return c.encoded(bind[astTraversal.JSONBindingTag])
}

// encoded compares the view of the json tag with what encoding/json does.
func (c tagCase) encoded(want astTraversal.BindingTag) error {
	for _, p := range c.Parts {
		if p.Key != "json" || strings.ContainsAny(p.Name, " \"\\,") || slices.Contains(p.Opts, "string") {
			continue
		}
		st := reflect.StructOf([]reflect.StructField{{Name: c.Field, Type: reflect.TypeOf(0), Tag: reflect.StructTag(c.tag())}})
		b, err := json.Marshal(reflect.Zero(st).Interface())
		if err != nil {
			return nil
		}
		m := map[string]any{}
		must(json.Unmarshal(b, &m))
		hidden := want.NotShown || want.ReturnOptional
		if _, ok := m[want.Name]; ok == hidden || len(m) > 0 == hidden {
			core.Infraf("the model of the tag %s of %s is wrong: %s, %v", c.tag(), c.Field, b, want)
		}
	}
	return nil
}

func tagsProp() core.Sub {
	return core.Prop[tagCase]{Name: "tags", Quick: 20000, Thorough: 400000, Gen: genTag,
		NonTrivial: func(c tagCase) bool {
			n := 0
			for _, p := range c.Parts {
				if slices.Contains(prog.Views, p.Key) {
					n++
				}
			}
			return n > 1
		},
		Oracle: func(r *core.Run, c tagCase) error { return core.Safe(c.check) },
	}
}
