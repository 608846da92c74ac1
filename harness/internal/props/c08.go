package props

import (
	"bufio"
	"embed"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"verif/harness/internal/core"
)

//go:embed lab
var labFiles embed.FS

// realModule is the go.mod and go.sum of a module that uses astra as it is in /repo, with its real dependencies.
func realModule(r *core.Run, name string) (mod, sum string) {
	b, err := os.ReadFile(filepath.Join(r.Repo, "go.mod"))
	must(err)
	text := string(b)
	i := strings.Index(text, "require (")
	if i < 0 {
		core.Infraf("the go.mod of astra has no requirements")
	}
	s, err := os.ReadFile(filepath.Join(r.Repo, "go.sum"))
	must(err)
	return fmt.Sprintf("module %s\n\ngo 1.21\n\nrequire github.com/ls6-events/astra v0.0.0\n\nreplace github.com/ls6-events/astra => %s\n\n%s", name, r.Repo, text[i:]), string(s)
}

// labProc is a program with real gin routers that is told what to register.
type labProc struct {
	dir string
	in  io.WriteCloser
	out *bufio.Reader
	cmd *exec.Cmd
	log *os.File
}

var (
	labOnce sync.Once
	labDir  string
	theLab  *labProc
)

func buildLab(r *core.Run) string {
	labOnce.Do(func() {
		labDir = filepath.Join(r.Scratch, "lab")
		must(os.MkdirAll(filepath.Join(labDir, "api"), 0o755))
		for src, dst := range map[string]string{"lab/main.go.txt": "main.go", "lab/api/api.go.txt": "api/api.go"} {
			b, err := labFiles.ReadFile(src)
			must(err)
			must(os.WriteFile(filepath.Join(labDir, dst), b, 0o644))
		}
		mod, sum := realModule(r, "example.com/lab")
		must(os.WriteFile(filepath.Join(labDir, "go.mod"), []byte(mod), 0o644))
		must(os.WriteFile(filepath.Join(labDir, "go.sum"), []byte(sum), 0o644))
		cmd := exec.Command("go", "build", "-o", filepath.Join(r.Scratch, "lab.bin"), ".")
		cmd.Dir = labDir
		if out, err := cmd.CombinedOutput(); err != nil {
			core.Infraf("building the route laboratory: %v\n%s", err, out)
		}
	})
	return labDir
}

func startLab(r *core.Run) *labProc {
	dir := buildLab(r)
	l := &labProc{dir: dir}
	l.cmd = exec.Command(filepath.Join(r.Scratch, "lab.bin"))
	l.cmd.Dir = dir
	l.cmd.Env = append(os.Environ(), "PWD="+dir)
	var err error
	l.in, err = l.cmd.StdinPipe()
	must(err)
	out, err := l.cmd.StdoutPipe()
	must(err)
	l.out = bufio.NewReaderSize(out, 1<<20)
	l.log, err = os.CreateTemp(r.Scratch, "lab-log")
	must(err)
	l.cmd.Stderr = l.log
	must(l.cmd.Start())
	return l
}

func (l *labProc) stop() {
	_ = l.in.Close()
	_ = l.cmd.Process.Kill()
	_ = l.cmd.Wait()
	_ = l.log.Close()
	_ = os.Remove(l.log.Name())
}

type labRoute struct {
	Kind   string
	Method string
	Groups []string
	Path   string
	H      int
}

type labDeny struct{ Kind, Text string }

type labCase struct {
	Routers [][]labRoute
	Deny    []labDeny
	WorkDir bool
}

type labInfo struct {
	Method, Path string
	Handlers     []int
}

type labAnswer struct {
	Err, Panic string
	Routers    [][]labInfo
	Kept       [][]int
}

// ask runs a case in the laboratory.
func ask(r *core.Run, c labCase, outs []string) (a labAnswer, err error) {
	if theLab == nil {
		theLab = startLab(r)
	}
	l := theLab
	q := map[string]any{"Routers": c.Routers, "Deny": c.Deny, "Outs": outs}
	if c.WorkDir {
		q["WorkDir"] = l.dir
	}
	b, err := json.Marshal(q)
	must(err)
	if _, err := l.in.Write(append(b, '\n')); err != nil {
		l.stop()
		theLab = nil
		return a, fmt.Errorf("the program crashed: %v", err)
	}
	type line struct {
		b   []byte
		err error
	}
	ch := make(chan line, 1)
	go func() {
		b, err := l.out.ReadBytes('\n')
		ch <- line{b, err}
	}()
	select {
	case x := <-ch:
		if x.err != nil {
			log, _ := os.ReadFile(l.log.Name())
			l.stop()
			theLab = nil
			return a, fmt.Errorf("the program crashed: %v %s", x.err, clip(string(log)))
		}
		must(json.Unmarshal(x.b, &a))
		return a, nil
	case <-time.After(2 * time.Minute):
		l.stop()
		theLab = nil
		return a, fmt.Errorf("the generation does not end")
	}
}

// labStatus is the status that handlers document, 0: none.
var labStatus = []string{"230", "231", "232", "", "234", "235", "236", "240", "241", "242", "243", "", "", ""}

// template rewrites a gin path and lists its variables.
func template(p string) (out string, vars []string) {
	for i, seg := range strings.Split(p, "/") {
		if i > 0 {
			out += "/"
		}
		j := strings.IndexAny(seg, ":*")
		if j < 0 || j == len(seg)-1 {
			out += seg
			continue
		}
		name := seg[j+1:]
		vars = append(vars, name)
		if seg[j] == '*' {
			name += "*"
		}
		out += seg[:j] + "{" + name + "}"
	}
	return out, vars
}

func (d labDeny) matches(p string) bool {
	switch d.Kind {
	case "exact":
		return p == d.Text
	case "regex":
		return regexp.MustCompile(d.Text).MatchString(p)
	case "prefix":
		return strings.HasPrefix(p, d.Text)
	}
	return strings.Count(p, "/") == len(d.Text)
}

var openAPIMethods = map[string]bool{http.MethodGet: true, http.MethodPost: true, http.MethodPut: true, http.MethodPatch: true, http.MethodDelete: true, http.MethodHead: true, http.MethodOptions: true, http.MethodTrace: true}

func (c labCase) run(r *core.Run) error {
	a, err := ask(r, c, []string{"openapi.json"})
	if err != nil {
		return err
	}
	out := filepath.Join(theLab.dir, "openapi.json")
	defer func() { _ = os.Remove(out) }()
	if a.Panic != "" {
		return fmt.Errorf("the generation panics: %s", a.Panic)
	}
	if a.Err != "" {
		return fmt.Errorf("the generation fails: %s", a.Err)
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return fmt.Errorf("there is no document")
	}
	doc, err := decodeJSON(b)
	if err != nil {
		return err
	}
	paths, _ := doc["paths"].(map[string]any)
	want := map[string]map[string]labInfo{}
	maybe := map[string]bool{} // paths of methods that OpenAPI has not
	for _, rt := range a.Routers {
		for _, ri := range rt {
			denied := false
			for _, d := range c.Deny {
				denied = denied || d.matches(ri.Path)
			}
			if denied {
				continue
			}
			t, _ := template(ri.Path)
			if !openAPIMethods[ri.Method] {
				maybe[t] = true
				continue
			}
			if want[t] == nil {
				want[t] = map[string]labInfo{}
			}
			m := strings.ToLower(ri.Method)
			if prev, ok := want[t][m]; ok && prev.Path != ri.Path {
				core.Infraf("%s and %s have the same template", prev.Path, ri.Path)
			}
			want[t][m] = ri
		}
	}
	for t := range paths {
		if want[t] == nil && !maybe[t] {
			return fmt.Errorf("the document has the path %s, which is of no route that is not denied", t)
		}
	}
	for _, t := range core.SortedKeys(want) {
		item, ok := paths[t].(map[string]any)
		if !ok {
			return fmt.Errorf("the document lacks the path %s; it has %v", t, core.SortedKeys(paths))
		}
		for m := range item {
			if _, ok := want[t][m]; !ok {
				return fmt.Errorf("the path %s has %s, which is not registered", t, m)
			}
		}
		for _, m := range core.SortedKeys(want[t]) {
			op, ok := item[m].(map[string]any)
			if !ok {
				return fmt.Errorf("the path %s lacks %s", t, m)
			}
			if err := want[t][m].check(op); err != nil {
				return fmt.Errorf("%s %s: %w", m, t, err)
			}
		}
	}
	return nil
}

func (ri labInfo) check(op map[string]any) error {
	if h := ri.Handlers[0]; h >= 0 && len(ri.Handlers) == 1 {
		if s := labStatus[h]; s != "" {
			rs, _ := op["responses"].(map[string]any)
			if _, ok := rs[s]; !ok || len(rs) != 1 {
				return fmt.Errorf("handler %d is documented with the responses %v, not %s", h, core.SortedKeys(rs), s)
			}
		}
	}
	_, all := template(ri.Path)
	var vars, got []string
	for _, v := range all {
		if !slices.Contains(vars, v) { // a name may come twice in a path
			vars = append(vars, v)
		}
	}
	params, _ := op["parameters"].([]any)
	for _, x := range params {
		p, _ := x.(map[string]any)
		if p["in"] != "path" {
			return fmt.Errorf("there is a parameter %s", js(x))
		}
		name, _ := p["name"].(string)
		got = append(got, name)
		catchAll := strings.Contains(ri.Path, "*"+name)
		if !catchAll && p["required"] != true {
			return fmt.Errorf("the path parameter %s is not required", name)
		}
		if dig(p, "schema", "type") != "string" {
			return fmt.Errorf("the path parameter %s is no string: %s", name, js(x))
		}
	}
	sort.Strings(vars)
	sort.Strings(got)
	if strings.Join(vars, " ") != strings.Join(got, " ") {
		return fmt.Errorf("the path parameters are %q, not %q", got, vars)
	}
	return nil
}

var (
	labStatic = []string{"users", "items", "v1", "a-b", "a.b", "x_y", "~me", "größe", "日本", "users2", "user", "USERS", "a+b", "id", "%20", "@x", "a=b", "a,b", "$", "1", "café.json", "(x)"}
	labVars   = []string{"id", "ids", "userID", "user_id", "größe", "a.b", "a-b", "x", "ID", "name", "id2", "v"}
	labDenied = []string{"^/users$", "^/users", "users", "/$", "^/$", ":id", "\\*", "^/[^/]+$", "^/v[0-9]+/", "(?i)users", "^$", ".*", "[", "a.b", "^/x_y/.+", "\\d"}
)

func drawSegment(t *rapid.T) string {
	switch rapid.IntRange(0, 7).Draw(t, "seg") {
	case 0, 1:
		return ":" + rapid.SampledFrom(labVars).Draw(t, "var")
	case 2:
		return rapid.SampledFrom([]string{"v", "user_", "a.b", "x-", "@", "~"}).Draw(t, "pre") + ":" + rapid.SampledFrom(labVars).Draw(t, "var")
	default:
		return rapid.SampledFrom(labStatic).Draw(t, "static")
	}
}

func drawPath(t *rapid.T, n int) string {
	p := ""
	for i := rapid.IntRange(0, n).Draw(t, "n"); i > 0; i-- {
		p += "/" + drawSegment(t)
	}
	return p
}

var genLab = rapid.Custom(func(t *rapid.T) labCase {
	var c labCase
	methods := []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT", "PURGE"}
	var known []string
	routers := rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(t, "routers")
	for k := 0; k < routers; k++ {
		var rs []labRoute
		root := ""
		if routers > 1 { // the routers do not share paths
			root = fmt.Sprintf("/router%d", k)
		}
		for i := rapid.IntRange(1, 9).Draw(t, "routes"); i > 0; i-- {
			rt := labRoute{Kind: rapid.SampledFrom([]string{"", "", "", "", "chain", "any", "match", "static", "file"}).Draw(t, "kind"),
				Method: rapid.SampledFrom(methods).Draw(t, "method"), H: rapid.IntRange(0, len(labStatus)-1).Draw(t, "h")}
			if root != "" {
				rt.Groups = append(rt.Groups, root)
			}
			for g := rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "groups"); g > 0; g-- {
				rt.Groups = append(rt.Groups, drawPath(t, 2)+rapid.SampledFrom([]string{"", "", "/"}).Draw(t, "gslash"))
			}
			rt.Path = drawPath(t, 3)
			switch rapid.IntRange(0, 5).Draw(t, "end") {
			case 0:
				rt.Path += "/"
			case 1:
				if rt.Kind != "static" && rt.Kind != "file" {
					rt.Path += "/*" + rapid.SampledFrom(labVars).Draw(t, "all")
				}
			case 2:
				if len(known) > 0 && root == "" {
					rt.Path, rt.Groups = rapid.SampledFrom(known).Draw(t, "known"), nil
				}
			}
			if rt.Kind == "match" {
				rt.Method = strings.Join(rapid.SliceOfNDistinct(rapid.SampledFrom(methods[:8]), 1, 4, rapid.ID[string]).Draw(t, "methods"), ",")
			}
			if root == "" {
				known = append(known, strings.ReplaceAll(strings.Join(rt.Groups, "")+rt.Path, "//", "/"))
			}
			rs = append(rs, rt)
		}
		c.Routers = append(c.Routers, rs)
	}
	for n := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(t, "deny"); n > 0; n-- {
		path := "/none"
		if len(known) > 0 {
			path = rapid.SampledFrom(known).Draw(t, "dpath")
		}
		switch rapid.IntRange(0, 4).Draw(t, "dk") {
		case 0, 1:
			d := path
			switch rapid.IntRange(0, 7).Draw(t, "variant") {
			case 0:
				d = strings.TrimPrefix(path, "/")
			case 1:
				d = path + "/"
			case 2:
				d = path[:len(path)/2]
			case 3:
				d, _ = template(path)
			}
			c.Deny = append(c.Deny, labDeny{Kind: "exact", Text: strings.ToValidUTF8(d, "")})
		case 2:
			re := rapid.SampledFrom(labDenied).Draw(t, "re")
			if rapid.Bool().Draw(t, "quote") {
				re = regexp.QuoteMeta(path)
			}
			if _, err := regexp.Compile(re); err != nil {
				re = "^/a"
			}
			c.Deny = append(c.Deny, labDeny{Kind: "regex", Text: re})
		case 3:
			c.Deny = append(c.Deny, labDeny{Kind: "prefix", Text: strings.ToValidUTF8(path[:(len(path)+1)/2], "")})
		default:
			c.Deny = append(c.Deny, labDeny{Kind: "depth", Text: strings.Repeat("/", rapid.IntRange(1, 4).Draw(t, "depth"))})
		}
	}
	c.WorkDir = rapid.Bool().Draw(t, "workdir")
	return c
})

func init() {
	register("C08", func(r *core.Run) []core.Sub {
		r.Rule = "Real gin engines (one or two) with up to 9 registrations each: nested groups with middlewares, single methods, Any, Match, handler chains, static directories and files, parameters (also within a segment), catch-alls, text of all kinds, shared handlers of 14 kinds, what gin refuses left out; up to 3 deny entries of 4 kinds made of those paths. Non-trivial: two routes and a variable, or a deny entry."
		r.Assume = []string{"router.Routes() is the truth about what is registered", "paths have no braces and no escaped colons", "a catch-all *name is {name*} in the path"}
		return []core.Sub{core.Prop[labCase]{
			Name: "routes", Quick: 3000, Thorough: 100000, Gen: genLab,
			NonTrivial: func(c labCase) bool {
				text := js(c)
				return len(c.Routers[0]) > 1 && strings.Contains(text, "/:") || len(c.Deny) > 0
			},
			Classify: func(c labCase) []string {
				var out []string
				for _, rs := range c.Routers {
					for _, rt := range rs {
						out = append(out, "kind:"+rt.Kind, fmt.Sprintf("handler:%d", rt.H), fmt.Sprintf("groups:%d", len(rt.Groups)))
					}
				}
				for _, d := range c.Deny {
					out = append(out, "deny:"+d.Kind)
				}
				return out
			},
			Oracle: func(r *core.Run, c labCase) error { return c.run(r) },
		}}
	})
}
