package prog

import "fmt"

// noiseStmts are statements that document nothing, or nothing that astra can
// know. $C is the context, $N a fresh name, $B the place of nested statements
// and $G the qualifier of gin. A nested statement counts wherever it is.
// Entries with a leading "ret:" put the nested statements in a function literal
// of their own that ends with the rest.
var noiseStmts = map[string][]string{
	"builtins":      {"$N := append([]int{1}, len(\"a\"), cap([]int{}))", "copy($N, $N)", "_ = make(map[string]int, len($N))", "delete(map[string]int{}, \"a\")", "_ = complex(1, 2)", "_ = real(2i)", "println($N)"},
	"minmax":        {"_ = min(1, 2, 3)", "_ = max(\"a\", \"b\")", "clear(map[string]int{})"},
	"panic":         {"if $C.IsAborted() {", "panic(nzMk(3))", "}"},
	"recover":       {"defer func() {", "if $N := recover(); $N != nil {", "$B", "}", "}()"},
	"conversion":    {"_ = nzInt(3)", "_ = []byte(\"x\")", "_ = (*nzBox)(nil)", "_ = nzFunc(func(int) int { return 1 })(2)", "_ = string([]rune(\"x\"))", "_ = any(nzInt(4)).(nzInt)", "_ = (func())(nil)"},
	"generic":       {"_ = nzGen[int](1)", "_ = nzGen(\"x\")", "_ = nzPair[int, string](1, \"a\")", "_ = nzSet[string]{}.Has(\"x\")", "_ = new(nzSet[int]).Has(3)", "_ = nzApply(func(i int) string { return \"x\" })"},
	"method":        {"_ = nzBox{}.Get(1)", "_ = (&nzBox{}).Put(2).Put(3).Get(4)", "_ = nzBox.Get(nzBox{}, 1)", "_ = (*nzBox).Put(&nzBox{}, 1)"},
	"methodvalue":   {"$N := nzBox{}.Get", "_ = $N(1)", "$Nm := $C.Next", "$Nm()", "$Nj := $C.GetHeader", "_ = $Nj"},
	"methodexpr":    {"(*$GContext).Next($C)", "_ = (*$GContext).IsAborted($C)"},
	"iface":         {"var $N nzGetter = nzBox{}", "_ = $N.Get(1)", "if $Nx, ok := $N.(interface{ Other() }); ok {", "$Nx.Other()", "$B", "}"},
	"fieldfunc":     {"$N := nzFuncs{F: func(i int) int { return i }}", "_ = $N.F(1)", "_ = (&$N).F(2)", "_ = $N.G"},
	"mapfunc":       {"map[string]func(){\"a\": func() {", "$B", "}}[\"a\"]()"},
	"slicefunc":     {"[]func(int){func(int) {", "$B", "}}[0](1)"},
	"retfunc":       {"nzRet()()", "nzRet2()(1)(\"x\")"},
	"iife":          {"func() func() {", "$B", "return func() {}", "}()()"},
	"varfunc":       {"var $N func(int) int", "$N = func(i int) int {", "if i > 0 {", "return $N(i - 1)", "}", "return 0", "}", "_ = $N(3)"},
	"multi":         {"_ = nzTake(nzTwo())", "$N, _ := nzTwo()", "_ = $N", "_, _ = nzTwo()"},
	"variadic":      {"$N := []any{1, \"a\"}", "nzVar($N...)", "nzVar()", "nzVar(nil)", "nzVar(1, nil, func() {})"},
	"channel":       {"$N := make(chan func(), 1)", "$N <- func() {", "$B", "}", "(<-$N)()", "close($N)", "for range make(<-chan int) {", "break", "}"},
	"select":        {"$N := make(chan int)", "select {", "case $Nv, ok := <-$N:", "_, _ = $Nv, ok", "$B", "case $N <- nzMk(1):", "default:", "}"},
	"labels":        {"$No:", "for $Ni := 0; $Ni < 2; $Ni++ {", "for {", "if $Ni > 0 {", "continue $No", "}", "break $No", "}", "}"},
	"goto":          {"if $C.IsAborted() {", "goto end$N", "}", "{", "$B", "}", "end$N:", "for false {", "}"},
	"shadowctx":     {"{", "$C := 1", "_ = $C", "}", "func($C int) { _ = $C }(1)", "for $C := range []int{} {", "_ = $C", "}"},
	"shadowbuiltin": {"{", "len := func(s string) int { return 1 }", "_ = len(\"a\")", "string := 1", "_ = string", "nil := 0", "_ = nil", "}"},
	"shadowpkg":     {"func() {", "type Context struct{ JSON func(int, any) }", "$N := Context{JSON: func(int, any) {}}", "$N.JSON(777, 1)", "}()"},
	"localtype":     {"type nz$N struct{ A, B int }", "_ = nz$N{A: 1}", "var $N interface{ X() } = nil", "_ = $N"},
	"localconst":    {"const (", "$Na = iota", "$Nb", ")", "_, _ = $Na, $Nb"},
	"typeswitch":    {"switch $N := any($C).(type) {", "case interface{ Next() }:", "_ = $N", "$B", "case nil, int:", "}"},
	"anonstruct":    {"$N := struct {", "A int", "F func() (int, error)", "}{A: 1, F: func() (int, error) { return 1, nil }}", "_, _ = $N.F()"},
	"embedded":      {"_ = nzOuter{}.Get(1)", "_ = nzOuter{}.nzBox.Get(1)"},
	"stored":        {"$C.Set(\"key\", func() {})", "if $N, ok := $C.Get(\"key\"); ok {", "_ = $N", "$B", "}", "_ = $C.GetString(\"x\")", "_ = $C.Param(\"nope\")"},
	"copy":          {"$N := $C.Copy()", "_ = $N"},
	"passed":        {"nzAny($C)", "_ = []any{$C, &$C}", "nzHolder{C: $C}.Do()", "var $N = map[string]*$GContext{\"c\": $C}", "_ = $N"},
	"dynhelper":     {"$N := nzHelp", "$N($C)", "var $Nf func(*$GContext)", "if $Nf != nil {", "$Nf($C)", "}", "nzTable[\"a\"]($C)", "nzFuncs{}.H($C)"},
	"methodhelper":  {"nzHolder{}.Help($C)", "(&nzHolder{}).HelpP(1, $C)", "var $N nzHelper = nzHolder{}", "$N.Help($C)"},
	"recursion":     {"nzRec($C, 3)", "nzMutA($C)"},
	"unnamedctx":    {"nzNoName($C, 1)", "nzBlank($C)"},
	"dynstatus":     {"$C.JSON(nzMk(200), 1)", "$C.Status(nzMk(1) + 400)", "$C.AbortWithStatus(len([]int{1}) + nzMk(200))", "$C.String(nzArr[0], \"x\")"},
	"dynstatusbody": {"$C.JSON(nzMk(200), func() any {", "$B", "return nil", "}())"},
	"dynname":       {"_ = $C.Query(nzStr(\"a\"))", "_ = $C.GetHeader(nzStr(\"b\") + \"c\")", "$C.Header(nzStr(\"d\"), \"v\")", "_ = $C.PostForm(string(nzBytes))"},
	"nestedarg":     {"nzVar(1, func() int {", "$B", "return 1", "}(), 2)"},
	"nestedindex":   {"_ = []int{1, 2}[func() int {", "$B", "return 0", "}()]"},
	"nestedkey":     {"_ = map[int]int{func() int {", "$B", "return 0", "}(): 1}"},
	"nestedrecv":    {"_ = func() nzBox {", "$B", "return nzBox{}", "}().Get(2)"},
	"nesteddefer":   {"defer nzVar(func() int {", "$B", "return 1", "}())"},
	"nestedcond":    {"if func() bool {", "$B", "return true", "}() {", "}", "for func() bool {", "return false", "}() {", "}"},
	"nestedgo":      {"go func(f func()) {", "f()", "}(func() {", "$B", "})"},
	"composite":     {"$N := [...]func(){0: func() {", "$B", "}, 3: nil}", "_ = $N", "_ = nzBox{N: nzMk(1)}", "_ = []nzBox{{N: 1}, {}}", "_ = map[string][]nzBox{\"a\": {{N: 1}}}"},
	"pointers":      {"$N := new(nzBox)", "*$N = nzBox{}", "(*$N).N++", "$Np := &$N", "_ = (**$Np).Get(1)", "_ = (*$Np).N"},
	"arith":         {"$N := 1<<3 | 2&^1", "$N++", "$N <<= 2", "$N %= 7", "_ = -$N ^ +$N", "_ = !($N > 1) && $N != 3 || false"},
	"strings":       {"$N := \"\\u00e9\\\"`\"", "_ = $N[0:1]", "_ = $N + `raw\\n`", "for $Ni, $Nr := range $N {", "_, _ = $Ni, $Nr", "}"},
	"arrays":        {"var $N [3][2]int", "$N[1][0] = 4", "_ = $N[:][0:1:2]", "_ = len($N)", "$Ns := (*[3][2]int)(&$N)", "_ = $Ns"},
	"emptyfor":      {"for $N := 0; ; {", "_ = $N", "break", "}", "for {", "break", "}", "if true {", "}", "switch {", "}", "{", "}", ";"},
	"assignop":      {"var $Na, $Nb = 1, \"x\"", "$Na, $Nb = 2, \"y\"", "_, _ = $Na, $Nb", "var $Nc, $Nd int", "$Nc, $Nd = $Nd, $Nc", "_ = $Nc"},
	"closurectx":    {"$N := func() *$GContext { return $C }", "_ = $N()", "$N().Next()"},
	"err":           {"var $N error", "if $N != nil {", "_ = $N.Error()", "$B", "}"},
	"blank":         {"_ = 0", "var _ = nzMk(2)", "_, _ = 1, 2", "const _ = 5"},
	"deferctx":      {"defer $C.Next()", "defer $C.Abort()", "go $C.IsAborted()"},
	"switchcall":    {"switch nzMk(1) {", "case nzMk(2), nzMk(3):", "$B", "case 4:", "fallthrough", "default:", "}"},
	"dynbind":       {"_ = $C.BindQuery(nzAnyVal())", "_ = $C.ShouldBindHeader(nzAnyVal())"},
	"asyncctx":      {"go nzAny($C)", "defer func(g *$GContext) {", "_ = g", "}($C)"},
	"instantiated":  {"$N := nzGen[int]", "_ = $N(1)", "_ = nzTree[int]{}", "_ = (&nzTree[string]{}).Walk(func(string) bool { return true })"},
	"iotaexpr":      {"_ = nzA + nzB", "_ = nzColor(1)", "_ = nzMask[nzA]"},
	"rawloop":       {"for $Ni, $Nj := 0, 10; $Ni < $Nj; $Ni, $Nj = $Ni+1, $Nj-1 {", "if $Ni == 1 {", "continue", "}", "}"},
}

// Calls of every documented method whose arguments cannot be resolved, with statements nested in them.
func init() {
	const num, str = "nzMk(func() int {", "nzStr(func() string {"
	for m, rest := range map[string]string{"JSON": ", 1", "XML": ", 1", "YAML": ", 1", "ProtoBuf": ", 1", "Data": ", \"x\", nil", "String": ", \"x\"",
		"Status": "", "AbortWithError": ", nil", "AbortWithStatus": "", "AbortWithStatusJSON": ", 1"} {
		noiseStmts["in"+m] = []string{"$C." + m + "(" + num, "$B", "return 1", "}())" + rest + ")"}
		noiseResults["in"+m] = "return 1"
	}
	for _, m := range []string{"Query", "QueryArray", "QueryMap", "GetQuery", "GetQueryArray", "GetQueryMap", "PostForm", "PostFormArray", "PostFormMap",
		"GetPostForm", "GetPostFormArray", "GetPostFormMap", "FormFile", "GetHeader", "Header"} {
		end := "}()))"
		if m == "Header" {
			end = "}()), \"v\")"
		}
		noiseStmts["in"+m] = []string{"$C." + m + "(" + str, "$B", "return \"a\"", end}
		noiseResults["in"+m] = "return \"a\""
	}
	for _, m := range []string{"BindQuery", "ShouldBindQuery", "BindHeader", "ShouldBindHeader"} {
		noiseStmts["in"+m] = []string{"_ = $C." + m + "(func() any {", "$B", "return nil", "}())"}
		noiseResults["in"+m] = "return nil"
	}
	NoiseNames = noiseNames()
}

// NoiseNames are the names of the noise statements that need no newer Go than the given one.
var NoiseNames []string

func noiseNames() []string {
	var names []string
	for n := range noiseStmts {
		names = append(names, n)
	}
	for i := range names { // insertion sort, the order must not depend on the map
		for j := i; j > 0 && names[j] < names[j-1]; j-- {
			names[j], names[j-1] = names[j-1], names[j]
		}
	}
	return names
}

// noiseNests tells which noise has a place for nested statements.
func noiseNests(name string) bool {
	for _, l := range noiseStmts[name] {
		if l == "$B" {
			return true
		}
	}
	return false
}

// noiseResults: the nested statements are in a function with a result.
var noiseResults = map[string]string{
	"dynstatusbody": "return nil", "nestedarg": "return 1", "nestedindex": "return 0", "nestedkey": "return 0",
	"nestedrecv": "return nzBox{}", "nesteddefer": "return 1", "nestedcond": "return true", "iife": "return nil",
}

var noiseInFunc = map[string]bool{"recover": true, "mapfunc": true, "slicefunc": true, "channel": true, "nestedgo": true, "composite": true}

func (c *fnCtx) noise(s *Stmt) {
	m := s.M
	if m == "minmax" && c.f.r.p.Go == "1.20" {
		m = "arith" // the builtins are of Go 1.21
	}
	lines, ok := noiseStmts[m]
	if !ok {
		panic("noise " + s.M)
	}
	c.f.r.noise[c.f.pkg] = true
	n := c.f.r.fresh("v")
	placed := false
	for _, l := range lines {
		if l == "$B" {
			placed = true
			ret := c.ret
			if r, ok := noiseResults[s.M]; ok {
				ret = r
			} else if noiseInFunc[s.M] {
				ret = "return"
			}
			c.inFunc(ret, func() { c.nested(func() { c.stmts(s.Body) }) })
			continue
		}
		out := ""
		for i := 0; i < len(l); i++ {
			if l[i] == '$' && i+1 < len(l) {
				switch l[i+1] {
				case 'C':
					out += c.ctx
					i++
					continue
				case 'N':
					out += n
					i++
					continue
				case 'G':
					out += c.f.gin()
					i++
					continue
				}
			}
			out += string(l[i])
		}
		c.line("%s", out)
	}
	if !placed {
		c.stmts(s.Body)
	}
}

// noiseDecls renders the declarations that noise statements use, one copy per package.
func (r *renderer) noiseDecls(pkg int) {
	f := r.file(pkg, 9)
	gin := f.gin()
	fmt.Fprintf(&f.tail, `
type nzInt int

type nzFunc func(int) int

type nzBox struct{ N int }

func (b nzBox) Get(i int) int { return i }

func (b *nzBox) Put(i int) *nzBox { return b }

type nzOuter struct{ nzBox }

type nzGetter interface{ Get(int) int }

type nzFuncs struct {
	F, G func(int) int
	H    func(*%[1]sContext)
}

type nzSet[T comparable] map[T]struct{}

func (s nzSet[T]) Has(v T) bool { return false }

type nzTree[T any] struct {
	L, R *nzTree[T]
	V    T
}

func (t *nzTree[T]) Walk(f func(T) bool) bool { return t == nil || f(t.V) && t.L.Walk(f) }

func nzGen[T any](v T) T { return v }

func nzPair[A, B any](a A, b B) (v struct {
	A A
	B B
}) {
	return
}

func nzApply[A, B any](f func(A) B) []B { return nil }

func nzMk(i int) int { return i }

func nzStr(s string) string { return s }

var nzBytes = []byte("x")

var nzArr = [2]int{200, 201}

func nzTwo() (int, string) { return 1, "" }

func nzTake(i int, s string) bool { return true }

func nzVar(vs ...any) {}

func nzRet() func() { return func() {} }

func nzRet2() func(int) func(string) { return func(int) func(string) { return func(string) {} } }

func nzAny(v any) {}

func nzAnyVal() any { return nil }

type nzHolder struct{ C *%[1]sContext }

func (h nzHolder) Do() {}

func (h nzHolder) Help(c *%[1]sContext) {}

func (h *nzHolder) HelpP(i int, c *%[1]sContext) {}

type nzHelper interface{ Help(c *%[1]sContext) }

func nzHelp(c *%[1]sContext) {}

var nzTable = map[string]func(*%[1]sContext){"a": nzHelp}

func nzRec(c *%[1]sContext, n int) {
	if n > 0 {
		nzRec(c, n-1)
	}
}

func nzMutA(c *%[1]sContext) { nzMutB(c, 1) }

func nzMutB(c *%[1]sContext, i int) {
	if i < 0 {
		nzMutA(c)
	}
	func(d *%[1]sContext) { nzMutA(d) }(c)
}

func nzNoName(*%[1]sContext, int) {}

func nzBlank(_ *%[1]sContext) {}

type nzColor int

const (
	nzA nzColor = iota
	nzB
	_
	nzD
)

var nzMask = [...]string{nzA: "a", nzB: "b", nzD: "d"}
`, gin)
}
