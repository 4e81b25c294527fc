package main

import (
	"bytes"
	"errors"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"pgregory.net/rapid"
)

// --- Go programs with known content ------------------------------------------------

// occurrence is a gettext call whose message is known by construction.
type occurrence struct {
	ID, Context, Plural string
	Line                int
}

// literal is a string literal; Arg tells whether it is the id, context or plural of an occurrence.
type literal struct {
	Value string
	Line  int
	Arg   bool
}

type goFile struct {
	Name string
	Src  string
	Occ  []occurrence
	Lits []literal
}

type goWriter struct {
	t     *rapid.T
	b     strings.Builder
	line  int
	occ   []occurrence
	lits  []literal
	names []string          // usable names of the package in this scope, "." for none
	all   []string          // names it is imported under
	pl    map[string]string // the plural id of each message
	weird bool              // unusable calls too
	calls int
}

func (w *goWriter) put(s string) {
	w.b.WriteString(s)
	w.line += strings.Count(s, "\n")
}

// gap writes white space as it may stand between two tokens in parentheses.
func (w *goWriter) gap() {
	switch intn(w.t, "gap", 0, 11) {
	case 0:
		w.put("\n\t\t")
	case 1:
		w.put(" ")
	case 2:
		w.put(` /* gotext.Get("in a comment") */ `)
	case 3:
		w.put(" // g.Get(\"in a comment\")\n")
	case 4:
		w.put("\n/*\n Get(\"in a comment\")\n*/\n")
	}
}

// lit writes a string literal of the given value in one of its spellings.
func (w *goWriter) lit(v string, arg bool) int {
	line := w.line
	w.lits = append(w.lits, literal{v, line, arg})
	raw := !strings.ContainsAny(v, "`\r\ufeff") && utf8.ValidString(v)
	if raw && chance(w.t, "raw", 35) {
		if chance(w.t, "rawcr", 10) {
			v = strings.ReplaceAll(v, "\n", "\r\n")
		}
		w.put("`" + v + "`")
		return line
	}
	w.put(`"`)
	style := intn(w.t, "style", 0, 3)
	for _, r := range v {
		switch {
		case r == '"' || r == '\\':
			w.put(`\` + string(r))
		case r == '\n' && style < 2:
			w.put(`\n`)
		case r == '\t' && style < 2:
			w.put(`\t`)
		case r == '\a' && style < 2:
			w.put(`\a`)
		case r == 0xfeff:
			w.put(`\ufeff`)
		case r == '\r' && style == 3: // stands for itself here, other than between backquotes
			w.put("\r")
		case r < 32 || r == 0x7f:
			w.put(fmt.Sprintf([]string{`\x%02x`, `\%03o`, `\u%04x`, `\U%08x`}[style], r))
		case r > 0x7f && style == 3:
			w.put(fmt.Sprintf(`\U%08X`, r))
		case r > 0x7f && style == 2 && r < 0x10000:
			w.put(fmt.Sprintf(`\u%04x`, r))
		case r > 0x7f && style == 1:
			for _, b := range []byte(string(r)) {
				w.put(fmt.Sprintf(`\x%02X`, b))
			}
		case r == 'a' && style == 1:
			w.put(`\141`)
		default:
			w.put(string(r))
		}
	}
	w.put(`"`)
	return line
}

func (w *goWriter) value() string {
	s := oneOf(w.t, "val", "", "one", "two", "one", "Hello World", "a\nb", "\nleading", "text\n", "tab\t", "é", "%d files", "gotext.Get(\"no\")", "ü`tick", "\r", "cr\rcr\r\n", "C:\\dir", "#", "//", "/*", "日本", "\u00a0")
	if chance(w.t, "free", 20) {
		s = text(w.t, "freeval")
	}
	if k := intn(w.t, "longval", 0, 999); k%331 == 165 {
		s = strings.Repeat(oneOf(w.t, "unit", "word ", "é\n", "x"), oneOf(w.t, "size", 200, 4096, 33000)) + s
	}
	return s
}

var gettextFuncs = map[string][]string{
	"Get": {"id"}, "GetD": {"dom", "id"}, "GetN": {"id", "plural", "n"}, "GetND": {"dom", "id", "plural", "n"},
	"GetC": {"id", "ctx"}, "GetDC": {"dom", "id", "ctx"}, "GetNC": {"id", "plural", "n", "ctx"}, "GetNDC": {"dom", "id", "plural", "n", "ctx"},
}

var gettextNames = []string{"Get", "GetD", "GetN", "GetND", "GetC", "GetDC", "GetNC", "GetNDC"}

// fun writes a reference to a function of the package under one of its names.
func (w *goWriter) fun(name, fn string) {
	if name == "." {
		if chance(w.t, "parenfun", 6) {
			k := oneOf(w.t, "deep", 1, 1, 2, 3, 5)
			fn = strings.Repeat("(", k) + fn + strings.Repeat(")", k)
		}
		w.put(fn)
		return
	}
	switch intn(w.t, "parens", 0, 15) {
	case 0:
		k := oneOf(w.t, "deep", 1, 1, 2, 3, 5)
		w.put(strings.Repeat("(", k) + name + "." + fn + strings.Repeat(")", k))
	case 1:
		k := oneOf(w.t, "deep", 1, 1, 2, 3, 5)
		w.put(strings.Repeat("(", k) + name + strings.Repeat(")", k) + "." + fn)
	case 2:
		w.put(name + ".\n\t\t" + fn)
	case 3:
		w.put(name + " . " + fn)
	default:
		w.put(name + "." + fn)
	}
}

// call writes a call of a gettext function.
func (w *goWriter) call(depth int) {
	name := oneOf(w.t, "pkgname", w.names...)
	fn := oneOf(w.t, "fn", gettextNames...)
	w.calls++
	w.fun(name, fn)
	w.put("(")
	o := occurrence{ID: w.value()}
	literalID := chance(w.t, "literalid", 90)
	usable := literalID && o.ID != ""
	slot := len(w.occ)
	if usable {
		w.occ = append(w.occ, o)
	}
	for i, arg := range gettextFuncs[fn] {
		if i > 0 {
			w.put(",")
		}
		w.gap()
		switch arg {
		case "dom":
			switch intn(w.t, "dom", 0, 3) {
			case 0:
				w.put("dom")
			case 1:
				w.expr(depth + 1)
			default:
				w.lit(oneOf(w.t, "domain", "default", "", "one"), false)
			}
		case "id":
			if !literalID {
				w.put(oneOf(w.t, "nonliteral", "x", "f()", "s[0]", "p.Name", "strings.ToUpper(x)"))
				break
			}
			open := strings.Repeat("(", oneOf(w.t, "parenarg", 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 5))
			w.put(open)
			o.Line = w.lit(o.ID, usable)
			w.put(strings.Repeat(")", len(open)))
		case "plural":
			k := o.ID + "\x00" + fn[:0]
			if _, ok := w.pl[k]; !ok {
				w.pl[k] = o.ID + oneOf(w.t, "pluralsuffix", "s", " (plural)", "\n", "es")
			}
			o.Plural = w.pl[k]
			if !usable {
				o.Plural = oneOf(w.t, "noplural", "lost", "files", "one")
			}
			w.lit(o.Plural, usable)
		case "n":
			w.put(oneOf(w.t, "n", "n", "1", "len(xs)", "2 * n", "'a'", "0x10", "1.5"))
		case "ctx":
			o.Context = oneOf(w.t, "ctxv", "menu", "button", "", "one", "a\nb", "ü")
			w.lit(o.Context, usable)
		}
		w.put(oneOf(w.t, "endgap", "", "", "", "", " ", `/* Get("no") */`)) // no line may end here
	}
	for i := oneOf(w.t, "nvars", 0, 0, 0, 1, 2); i > 0; i-- {
		w.put(", ")
		w.expr(depth + 1)
	}
	if chance(w.t, "slice of variables", 10) {
		w.put(oneOf(w.t, "slice", ", args...", ", xs ...", ", []any{1, x}..."))
	}
	if chance(w.t, "trailing", 5) {
		w.put(",\n")
	}
	w.put(")")
	if usable {
		w.occ[slot] = o
	}
}

// expr writes an expression.
func (w *goWriter) expr(depth int) {
	k := intn(w.t, "expr", 0, 19)
	if depth > 3 {
		k = 10 + k%4
	}
	switch {
	case k <= 6 && len(w.names) > 0:
		w.call(depth)
	case k <= 10:
		w.lit(w.value(), false)
	case k == 11:
		w.put("x")
	case k == 12:
		w.put("42")
	case k == 13: // not calls of the package
		w.put(oneOf(w.t, "notpkg", "l.Get", "other.Get", "x.gotext.Get", "fmt.Sprintf", "gotextual.GetN", "f().Get", "Got", "s[0].GetC"))
		w.put("(")
		w.lit(w.value(), false)
		if chance(w.t, "notpkg2", 40) {
			w.put(", ")
			w.lit(w.value(), false)
		}
		w.put(")")
	case k == 14:
		w.put("(")
		w.expr(depth + 1)
		w.put(" + ")
		w.expr(depth + 1)
		w.put(")")
	case k == 15:
		w.put("[]string{")
		for i := intn(w.t, "nel", 0, 3); i > 0; i-- {
			w.gap()
			w.expr(depth + 1)
			w.put(", ")
		}
		w.put("}")
	case k == 16:
		w.put("map[string]any{")
		w.lit("k"+w.value(), false)
		w.put(": ")
		w.expr(depth + 1)
		w.put("}")
	case k == 17:
		w.put("func() string {\n")
		w.stmts(depth+1, 2)
		w.put("return ")
		w.expr(depth + 1)
		w.put("\n}()")
	case k == 18:
		w.put("wrap(")
		w.gap()
		w.expr(depth + 1)
		w.put(")")
	default:
		w.put("&T{Name: ")
		w.expr(depth + 1)
		w.put("}")
	}
}

// shadowed runs f where one of the names of the package denotes something else.
func (w *goWriter) shadowed(name string, f func()) {
	old := w.names
	w.names = without(w.names, name)
	f()
	w.names = old
}

// no writes a call that looks like one of the package but is not.
func (w *goWriter) no(name string) {
	fn := oneOf(w.t, "nofn", gettextNames...)
	if name == "." {
		fn = "Get"
		w.put(fn + "(")
	} else {
		w.put(name + "." + fn + "(")
	}
	for i := range gettextFuncs[fn] {
		if i > 0 {
			w.put(", ")
		}
		w.lit(oneOf(w.t, "noval", "not a message", "one", "no"), false)
	}
	w.put(")")
}

func (w *goWriter) stmts(depth, max int) {
	for i := intn(w.t, "nstmts", 0, max); i > 0; i-- {
		w.stmt(depth)
		w.put("\n")
	}
}

func (w *goWriter) stmt(depth int) {
	if depth == 0 && intn(w.t, "deep", 0, 999)%101 == 50 { // deeper than usual
		n := oneOf(w.t, "how deep", 12, 30, 110)
		layers := oneOf(w.t, "layers", [2]string{"{\n", "}\n"}, [2]string{"func() {\n", "}()\n"}, [2]string{"if x {\n", "}\n"}, [2]string{"for {\nswitch {\ndefault:\n", "}\n}\n"})
		w.put(strings.Repeat(layers[0], n))
		w.stmts(3, 2)
		w.put("\n_ = " + strings.Repeat("wrap(", n))
		w.expr(3)
		w.put(strings.Repeat(")", n) + "\n" + strings.Repeat(layers[1], n))
		return
	}
	k := intn(w.t, "stmt", 0, 17)
	if depth > 3 && k > 6 {
		k %= 7
	}
	switch {
	case k <= 3:
		if len(w.names) > 0 {
			w.call(depth)
		} else {
			w.put("_ = ")
			w.expr(depth + 1)
		}
	case k == 4:
		w.put("_ = ")
		w.expr(depth + 1)
	case k == 5:
		w.put("// gotext.Get(\"in a comment\")")
	case k == 6:
		w.put("/* g.Get(\"in a\ncomment\") */")
	case k == 7:
		w.put("if x == ")
		w.lit(w.value(), false)
		w.put(" {\n")
		w.stmts(depth+1, 2)
		w.put("} else {\n")
		w.stmts(depth+1, 2)
		w.put("}")
	case k == 8:
		w.put("for i := range ")
		w.put("xs {\n")
		w.stmts(depth+1, 2)
		w.put("}")
	case k == 9:
		w.put("switch x {\ncase ")
		w.expr(depth + 1)
		w.put(":\n")
		w.stmts(depth+1, 2)
		w.put("}")
	case k == 10:
		w.put("go func(a string) {\n")
		w.stmts(depth+1, 2)
		w.put("}(")
		w.expr(depth + 1)
		w.put(")")
	case k == 11:
		w.put("const c = ")
		w.lit(w.value(), false)
	case k == 12:
		w.put("type U struct {\n\tA int ")
		w.lit(`json:"a"`, false)
		w.put("\n}")
	case k == 13 && len(w.names) > 0: // the name means something else in this block
		name := oneOf(w.t, "shadow", w.names...)
		id := name
		if name == "." {
			id = "Get"
		}
		switch intn(w.t, "how", 0, 11) {
		case 5:
			w.put("{\nconst " + id + " = namer(")
			w.lit(w.value(), false)
			w.put(")\n")
			w.shadowed(name, func() { w.no(name); w.put("\n"); w.stmts(depth+1, 1) })
			w.put("}")
		case 6:
			w.put("{\ntype " + id + oneOf(w.t, "typedecl", " T\n", " = T\n", " struct{ T }\n"))
			w.shadowed(name, func() { w.no(name); w.put("\n"); w.stmts(depth+1, 1) })
			w.put("}")
		case 7:
			w.put("switch " + id + " := x.(type) {\ncase T:\n")
			w.shadowed(name, func() { w.no(name); w.put("\n") })
			w.put("}")
		case 8:
			w.put("select {\ncase " + id + " := <-c:\n")
			w.shadowed(name, func() { w.no(name); w.put("\n") })
			w.put("default:\n")
			w.stmts(depth+1, 1)
			w.put("}")
		case 9:
			w.put("_ = func() (" + id + " T) {\n")
			w.shadowed(name, func() { w.no(name); w.put("\n"); w.stmts(depth+1, 1) })
			w.put("return\n}")
		case 10, 11: // a label or a field is no name
			w.put(oneOf(w.t, "other name space", id+":\nfor {\n", "{\ntype V struct{ "+id+" int }\n", "{\nx."+id+" = nil\n"))
			w.stmts(depth+1, 2)
			w.put("}")
		case 0:
			w.put("{\n" + id + " := ")
			w.expr(depth + 1) // still the package
			w.put("\n")
			w.shadowed(name, func() { w.no(name); w.put("\n"); w.stmts(depth+1, 1) })
			w.put("}")
		case 1:
			w.put("func(" + id + " T) {\n")
			w.shadowed(name, func() { w.no(name); w.put("\n"); w.stmts(depth+1, 1) })
			w.put("}(nil)")
		case 2:
			w.put("for " + id + " := range xs {\n")
			w.shadowed(name, func() { w.no(name); w.put("\n") })
			w.put("}")
		case 3:
			w.put("{\nvar " + id + " = ")
			w.expr(depth + 1)
			w.put("\n")
			w.shadowed(name, func() { w.no(name); w.put("\n") })
			w.put("}")
		default:
			w.put("if " + id + " := f(); true {\n")
			w.shadowed(name, func() { w.no(name); w.put("\n") })
			w.put("}")
		}
	case k == 14 && w.weird:
		w.unusable(depth)
	case k == 15:
		w.put("defer wrap(")
		w.expr(depth + 1)
		w.put(")")
	case k == 16:
		w.put("var a, b = ")
		w.expr(depth + 1)
		w.put(", ")
		w.expr(depth + 1)
	case k == 17: // a name the package is not imported under
		for _, n := range []string{"gotext", "g", "i18n"} {
			if !contains(w.all, n) {
				w.no(n)
				return
			}
		}
		w.put("x = nil")
	default:
		w.put("x++")
	}
}

// unusable writes a call of the package that gives no message, or an undefined one.
func (w *goWriter) unusable(depth int) {
	if len(w.names) == 0 {
		w.put("x--")
		return
	}
	name, fn := oneOf(w.t, "badname", w.names...), oneOf(w.t, "badfn", gettextNames...)
	w.fun(name, fn)
	w.put("(")
	for i := intn(w.t, "badargs", 0, 4); i > 0; i-- {
		w.put(oneOf(w.t, "badarg", "42", "'r'", "x", "nil", "1.5", "func() {}", "-1", "f(g(1))", "&x", "[]int{1}", "struct{}{}", "3i", "*p", "<-c", "a.b.c", "m[1]", "x.(T)"))
		if i > 1 {
			w.put(", ")
		} else if chance(w.t, "spread", 8) {
			w.put(" ...")
		}
	}
	w.put(")")
}

// goProgram draws a Go file.
func goProgram(t *rapid.T, name string, weird bool, pl map[string]string) goFile {
	w := &goWriter{t: t, line: 1, weird: weird, pl: pl}
	if chance(t, "bom", 4) {
		w.put("\ufeff")
	}
	w.put(oneOf(t, "top", "", "", "// Package p.\n", "//go:build linux\n\n", "//go:build ignore\n\n", "// Code generated by x. DO NOT EDIT.\n\n", "/* gotext.Get(\"in\na comment\") */\n", "//line other.go:100\n", "\n\n"))
	big := intn(t, "big", 0, 999)%97 == 48
	if big {
		w.put(oneOf(t, "prelude", strings.Repeat("\n", 66000), "/*"+strings.Repeat("long\n", 70000)+"*/\n", "//"+strings.Repeat(" long", 20000)+"\n"))
	}
	w.put("package p\n")
	const path = "github.com/leonelquinteros/gotext"
	var imports []string
	quote := func() string {
		return oneOf(t, "pathquote", `"`+path+`"`, `"`+path+`"`, `"`+path+`"`, "`"+path+"`", `"github.com/leonelquinteros/\x67otext"`)
	}
	for _, n := range oneOf(t, "imports", []string{"gotext"}, []string{"gotext"}, []string{"gotext"}, []string{"g"}, []string{"."}, []string{"_"}, []string{}, []string{"gotext", "i18n"}, []string{"_", "g"}, []string{".", "gotext"}, []string{"i18n", "."}) {
		spec := quote()
		if n != "gotext" || chance(t, "explicit", 20) {
			spec = n + " " + spec
		}
		imports = append(imports, spec)
		if n != "_" {
			w.names = append(w.names, n)
		}
	}
	w.all = w.names
	for _, o := range []string{`"fmt"`, "strings \"strings\"", `"example.com/gotext/v2/sub"`} {
		if chance(t, "otherimport", 25) {
			imports = append(imports, o)
		}
	}
	if !contains(w.all, "gotext") && chance(t, "fakeimport", 40) {
		imports = append(imports, oneOf(t, "fake", `"example.com/gotext"`, `gotext "fmt"`))
	}
	if chance(t, "cgo", 5) {
		imports = append(imports, `"C"`)
	}
	for i := len(imports) - 1; i > 0; i-- {
		j := intn(t, "swap", 0, i)
		imports[i], imports[j] = imports[j], imports[i]
	}
	switch {
	case len(imports) == 0:
	case chance(t, "oneblock", 50):
		w.put("import (\n")
		for _, i := range imports {
			w.put("\t" + i + "\n")
		}
		w.put(")\n")
	default:
		for _, i := range imports {
			w.put("import " + i + oneOf(t, "sep", "\n", "; "))
			w.put("\n")
		}
	}
	for i := intn(t, "ndecls", 1, 5); i > 0; i-- {
		switch intn(t, "decl", 0, 9) {
		case 9:
			if len(w.names) == 0 || w.names[0] == "." {
				w.put("var _ = 1\n")
				break
			}
			name := w.names[0]
			w.put("func (" + name + " *T) m2() {\n")
			w.shadowed(name, func() { w.no(name); w.put("\n"); w.stmts(0, 3) })
			w.put("}\n")
		case 0:
			w.put("var v = ")
			w.expr(0)
			w.put("\n")
		case 1:
			w.put("const k = ")
			w.lit(w.value(), false)
			w.put("\n")
		case 2:
			w.put("func (t *T) m() string {\n")
			w.stmts(0, 3)
			w.put("return ")
			w.expr(1)
			w.put("\n}\n")
		case 3:
			w.put("type T struct {\n\tName string ")
			w.lit(`po:"name"`, false)
			w.put("\n}\n")
		case 4:
			w.put(oneOf(t, "directive", "//line z.go:7\n", "/*line y.go:3:1*/\n", "//go:generate x\n", "// Get(\"x\")\n"))
		default:
			w.put("func f() {\n")
			w.stmts(0, 6)
			w.put("}\n")
		}
	}
	if intn(t, "very many", 0, 999)%211 == 105 && len(w.names) > 0 { // more messages than usual
		w.put("var many = []string{\n")
		for i, n := 0, oneOf(t, "howmany", 30, 300, 1100); i < n; i++ {
			id := fmt.Sprint("many ", i)
			w.put("\t")
			w.fun(w.names[0], "Get")
			w.put("(")
			w.occ = append(w.occ, occurrence{ID: id, Line: w.lit(id, true)})
			w.put("),\n")
		}
		w.put("}\n")
	}
	src := w.b.String()
	if !strings.Contains(src, "\r") && chance(t, "crlf", 8) {
		src = strings.ReplaceAll(src, "\n", "\r\n")
	}
	if chance(t, "nofinal", 10) {
		src = strings.TrimSuffix(src, "\n")
	}
	return goFile{Name: name, Src: src, Occ: w.occ, Lits: w.lits}
}

// valid guards against mistakes of the generator.
func (f goFile) valid() error {
	if _, err := parser.ParseFile(token.NewFileSet(), f.Name, f.Src, 0); err != nil {
		return fmt.Errorf("the generated program is not valid: %v", err)
	}
	return nil
}

// --- expectations -------------------------------------------------------------------

type goMsg struct {
	ID, Context, Plural string
	Locs                po.Locations
}

func goKey(ctx, id string) string { return uid(po.Entry{Context: ctx, ID: id}) }

// expected returns the messages of the files, by context and id, and their order.
func expected(files []goFile) (map[string]*goMsg, []string) {
	m := map[string]*goMsg{}
	var order []string
	for _, f := range files {
		for _, o := range f.Occ {
			k := goKey(o.Context, o.ID)
			if m[k] == nil {
				m[k] = &goMsg{ID: o.ID, Context: o.Context}
				order = append(order, k)
			}
			if m[k].Plural == "" {
				m[k].Plural = o.Plural
			}
			m[k].Locs = append(m[k].Locs, po.Location{File: f.Name, Line: o.Line})
		}
	}
	return m, order
}

type goCase struct {
	Files   []goFile
	NoClean bool
	Header  bool
	Entry   string
}

func drawGo(t *rapid.T) goCase {
	c := goCase{NoClean: chance(t, "noclean", 15), Header: chance(t, "hdr", 20), Entry: oneOf(t, "goentry", "string", "bytes", "reader", "path", "file")}
	pl := map[string]string{}
	n := 1
	if chance(t, "several", 35) {
		c.Entry, n = oneOf(t, "manyentry", "paths", "files"), intn(t, "nfiles", 2, 3)
	}
	for i := 0; i < n; i++ {
		c.Files = append(c.Files, goProgram(t, oneOf(t, "gofilename", "main", "sub/x", "ü", "a b", "x_test", "./m", "sub/../n", "sub//y")+fmt.Sprint(i)+".go", false, pl))
	}
	return c
}

// extract runs the extraction through the chosen entry point.
func (c goCase) extract(x *Ctx, opts ...goparse.Option) (*po.File, []goFile, error) {
	opts = append([]goparse.Option{goparse.WithNoHeader(!c.Header), goparse.WithCleanDuplicates(!c.NoClean)}, opts...)
	files := append([]goFile(nil), c.Files...)
	f := files[0]
	switch c.Entry {
	case "string":
		r, err := goparse.FromString(f.Src, f.Name, opts...)
		return r, files, err
	case "bytes":
		r, err := goparse.FromBytes([]byte(f.Src), f.Name, opts...)
		return r, files, err
	case "reader":
		r, err := goparse.FromReader(oneByteReader{strings.NewReader(f.Src)}, f.Name, opts...)
		return r, files, err
	}
	dir := x.Dir()
	var paths []string
	for i := range files {
		p := dir + "/" + files[i].Name // not cleaned: the name may have a longer form
		must(os.MkdirAll(dir+"/sub", 0o777))
		must(os.MkdirAll(filepath.Dir(p), 0o777))
		must(os.WriteFile(p, []byte(files[i].Src), 0o666))
		files[i].Name = p
		paths = append(paths, p)
	}
	switch c.Entry {
	case "path":
		r, err := goparse.FromPath(paths[0], opts...)
		return r, files, err
	case "paths":
		r, err := goparse.FromPaths(paths, opts...)
		return r, files, err
	}
	var fs []*os.File
	for _, p := range paths {
		h, err := os.Open(p)
		must(err)
		defer h.Close()
		fs = append(fs, h)
	}
	if c.Entry == "file" {
		r, err := goparse.FromFile(fs[0], opts...)
		return r, files, err
	}
	r, err := goparse.FromFiles(fs, opts...)
	return r, files, err
}

// common runs the extraction, judges what every extraction has in common, and returns the messages without the header.
func (c goCase) common(x *Ctx, opts ...goparse.Option) (po.Entries, []goFile, error) {
	for _, f := range c.Files {
		must(f.valid())
	}
	r, files, err := c.extract(x, opts...)
	if err != nil {
		return nil, nil, fmt.Errorf("valid program reported as error: %v", err)
	}
	n := 0
	for _, f := range files {
		n += len(f.Occ)
	}
	x.NonTrivial(n > 0)
	x.Label("entry point "+c.Entry, true)
	x.Label("three or more calls", n >= 3)
	var es po.Entries
	for i, e := range r.Entries {
		if isHeader(e) {
			if !c.Header || i > 0 {
				return nil, nil, fmt.Errorf("message %d has an empty id: %s", i, showEntry(e))
			}
			continue
		}
		if e.Str != "" || len(e.Plurals) > 0 || len(e.Flags) > 0 || e.Obsolete || len(e.Previous) > 0 {
			return nil, nil, fmt.Errorf("extracted message has a translation or flags: %s", showEntry(e))
		}
		es = append(es, e)
	}
	if c.Header && (len(r.Entries) == 0 || !isHeader(r.Entries[0])) {
		return nil, nil, errors.New("there is no header")
	}
	return es, files, nil
}

func showSrc(files []goFile) string {
	var b strings.Builder
	for _, f := range files {
		fmt.Fprintf(&b, "\n--- %s\n%s", f.Name, f.Src)
	}
	return b.String()
}

func checkP22(c goCase, x *Ctx) error {
	es, files, err := c.common(x)
	if err != nil {
		return err
	}
	var got, want []string
	show := func(id, ctx, plural string) string { return fmt.Sprintf("id %q context %q plural %q", id, ctx, plural) }
	for _, e := range es {
		got = append(got, show(e.ID, e.Context, e.Plural))
	}
	if c.NoClean {
		for _, f := range files {
			for _, o := range f.Occ {
				want = append(want, show(o.ID, o.Context, o.Plural))
			}
		}
	} else {
		m, order := expected(files)
		for _, k := range order {
			want = append(want, show(m[k].ID, m[k].Context, m[k].Plural))
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if js(got) != js(want) {
		return fmt.Errorf("extracted\n  %s\nwant\n  %s%s", strings.Join(got, "\n  "), strings.Join(want, "\n  "), showSrc(files))
	}
	return nil
}

func checkP23(c goCase, x *Ctx) error {
	c.NoClean = false
	es, files, err := c.common(x)
	if err != nil {
		return err
	}
	m, _ := expected(files)
	several := 0
	for _, e := range es {
		w := m[uid(e)]
		if w == nil {
			continue // P22
		}
		if len(w.Locs) > 1 {
			several++
		}
		if js(e.Locations) != js(w.Locs) {
			return fmt.Errorf("references of %q: %v, want %v%s", e.ID, []po.Location(e.Locations), []po.Location(w.Locs), showSrc(files))
		}
	}
	x.Label("message used at several places", several > 0)
	return nil
}

func checkP24(c goCase, x *Ctx) error {
	c.NoClean = false
	es, files, err := c.common(x, goparse.WithExtractAll(true))
	if err != nil {
		return err
	}
	m, _ := expected(files)
	want := map[string]*goMsg{}
	for k, v := range m {
		w := *v
		want[k] = &w
	}
	plain := 0
	for _, f := range files {
		for _, l := range f.Lits {
			if l.Arg || l.Value == "" {
				continue
			}
			plain++
			k := goKey("", l.Value)
			if want[k] == nil {
				want[k] = &goMsg{ID: l.Value}
			}
			want[k].Locs = append(want[k].Locs, po.Location{File: f.Name, Line: l.Line})
		}
	}
	x.NonTrivial(plain > 0)
	var a, b []string
	show := func(id, ctx, plural string, l po.Locations) string {
		var s []string
		for _, l := range l {
			s = append(s, fmt.Sprint(l))
		}
		sort.Strings(s)
		return fmt.Sprintf("id %q context %q plural %q at %v", id, ctx, plural, s)
	}
	for _, e := range es {
		a = append(a, show(e.ID, e.Context, e.Plural, e.Locations))
	}
	for _, w := range want {
		b = append(b, show(w.ID, w.Context, w.Plural, w.Locs))
	}
	sort.Strings(a)
	sort.Strings(b)
	if js(a) != js(b) {
		return fmt.Errorf("extracted\n  %s\nwant\n  %s%s", strings.Join(a, "\n  "), strings.Join(b, "\n  "), showSrc(files))
	}
	return nil
}

// --- P48 -----------------------------------------------------------------------------

type p48Case struct {
	Text []byte
	Prog *goFile
	All  bool
}

func drawP48(t *rapid.T) p48Case {
	c := p48Case{All: chance(t, "all", 40)}
	f := goProgram(t, "x.go", true, map[string]string{})
	switch intn(t, "kind", 0, 9) {
	case 0:
		c.Text = []byte(rapid.String().Draw(t, "any"))
	case 1:
		c.Text = rapid.SliceOf(rapid.Byte()).Draw(t, "bytes")
	case 2, 3: // token soup
		var b strings.Builder
		b.WriteString(oneOf(t, "soupstart", "package p\nimport \"github.com/leonelquinteros/gotext\"\nfunc f() {", "package p;import . \"github.com/leonelquinteros/gotext\"\nvar x = ", ""))
		for i := intn(t, "ntok", 0, 20); i > 0; i-- {
			b.WriteString(oneOf(t, "tok", "gotext.Get", "gotext", ".", "Get", "GetND", "(", ")", ",", `"x"`, "`y`", `""`, "{", "}", "\n", ";", "func", "1", "'", `"`, "`", "+", "...", "[", "]", "import", "\x00", "\\", "//", "/*", "é", "type T[P any] struct{}", "go", ":=", "<-"))
		}
		if chance(t, "close", 50) {
			b.WriteString("\n}\n")
		}
		c.Text = []byte(b.String())
	case 4, 5: // a damaged program
		s := f.Src
		for i := intn(t, "ndmg", 1, 3); i > 0 && len(s) > 0; i-- {
			p := intn(t, "at", 0, len(s)-1)
			switch intn(t, "dmg", 0, 3) {
			case 0:
				s = s[:p]
			case 1:
				s = s[:p] + oneOf(t, "ins", "(", ")", `"`, "`", "\n", "\x00", "\xff", "{", ",", "gotext.Get(") + s[p:]
			case 2:
				s = s[:p] + s[min(len(s), p+intn(t, "len", 1, 5)):]
			case 3:
				q := intn(t, "to", p, len(s)-1)
				s = s[:p] + s[p:q] + s[p:]
			}
		}
		c.Text = []byte(s)
	default:
		c.Prog, c.Text = &f, []byte(f.Src)
	}
	return c
}

func checkP48(c p48Case, x *Ctx) error {
	x.NonTrivial(len(c.Text) > 10)
	run := func() (*po.File, error) {
		return goparse.FromBytes(c.Text, "x.go", goparse.WithNoHeader(true), goparse.WithExtractAll(c.All))
	}
	f, err := run()
	f2, err2 := run()
	if (err == nil) != (err2 == nil) || (err != nil && err.Error() != err2.Error()) {
		return fmt.Errorf("different outcomes: %v, %v", err, err2)
	}
	x.Label("accepted", err == nil)
	if err == nil {
		if err := diffEntries(f.Entries, f2.Entries); err != nil {
			return fmt.Errorf("different messages: %v", err)
		}
	} else if f != nil && len(f.Entries) > 0 && c.Prog == nil {
		x.Label("messages with an error", true)
	}
	_, syntax := parser.ParseFile(token.NewFileSet(), "x.go", c.Text, 0)
	if syntax != nil && err == nil {
		return fmt.Errorf("text that is no Go file is accepted: %v", syntax)
	}
	if syntax == nil && f == nil {
		return fmt.Errorf("no messages at all from a valid Go file: %v", err)
	}
	// The lower level interface.
	g, gerr := goparse.NewFile(bytes.NewReader(c.Text), "x.go", nil)
	if (gerr == nil) != (syntax == nil) {
		return fmt.Errorf("NewFile: %v, syntax: %v", gerr, syntax)
	}
	if gerr == nil && !c.All {
		es := g.Entries().CleanDuplicates()
		if len(es) != len(f.Entries) {
			return fmt.Errorf("File.Entries has %d messages, the parser %d", len(es), len(f.Entries))
		}
	}
	if c.Prog == nil {
		return nil
	}
	must(c.Prog.valid())
	x.Label("program with messages", len(c.Prog.Occ) > 0)
	want, _ := expected([]goFile{*c.Prog})
	got := map[string]po.Entry{}
	for _, e := range f.Entries {
		got[uid(e)] = e
	}
	for k, w := range want {
		e, ok := got[k]
		if !ok {
			return fmt.Errorf("the message %q is lost\n%s", w.ID, c.Text)
		}
		if e.Plural != w.Plural {
			return fmt.Errorf("the message %q has plural %q, want %q\n%s", w.ID, e.Plural, w.Plural, c.Text)
		}
		for _, l := range w.Locs {
			if !hasLocation(e, l) {
				return fmt.Errorf("the reference %v of %q is lost\n%s", l, w.ID, c.Text)
			}
		}
	}
	return nil
}

func init() {
	rule := "1-3 Go files with calls of all gettext functions in any nesting and layout, under zero to two import names, shadowed names, look-alike calls, comments and strings, raw and interpreted literals in every spelling, through every entry point; non-trivial: "
	register("P22", 50000, 1000000, rule+"at least one message", drawGo, checkP22)
	register("P23", 50000, 1000000, rule+"at least one message", drawGo, checkP23)
	register("P24", 50000, 1000000, rule+"at least one message or other string", drawGo, checkP24)
	register("P48", 150000, 3000000, "random text and bytes, token soup, damaged programs, and programs with unusable calls; non-trivial: more than ten bytes", drawP48, checkP48)
}
