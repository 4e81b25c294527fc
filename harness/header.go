package main

import (
	"fmt"
	"mime"
	"reflect"
	"strconv"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
	"pgregory.net/rapid"
)

var headerKeys = []string{
	"Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team", "Language",
	"MIME-Version", "Content-Type", "Content-Transfer-Encoding", "Plural-Forms", "X-Generator", "X-Poedit-Basepath", "X", "X-Ünï", "X Y",
}

func headerKey(t *rapid.T, label string) string {
	if chance(t, label+".std", 75) {
		return oneOf(t, label, headerKeys...)
	}
	s := strings.TrimSpace(strings.ReplaceAll(line(t, label+".any"), ":", ""))
	if s == "" {
		return "X-Empty"
	}
	return s
}

func headerValue(t *rapid.T, label string) string {
	switch intn(t, label+".kind", 0, 5) {
	case 0:
		return ""
	case 1:
		return oneOf(t, label, "https://example.org:8080/a?b=c:d", "2024-01-02 03:04+0000", "Ann <a@b.c>", "nplurals=2; plural=(n != 1);", "text/plain; charset=UTF-8", "a: b: c", ":", "::", ": x", ";", "say \"hi\\\"", "日本語: ñ")
	}
	return strings.TrimSpace(line(t, label+".any"))
}

type p26Case struct {
	Fields   []po.HeaderField
	Template bool
	Text     string // arbitrary text for reading
}

// modelHeader reads header text: every line with a colon is a field.
func modelHeader(s string) (r []po.HeaderField) {
	const ws = " \t\n\v\f\r"
	for _, l := range strings.Split(s, "\n") {
		k, v, ok := strings.Cut(l, ":")
		if ok {
			r = append(r, po.HeaderField{Key: strings.Trim(k, ws), Value: strings.Trim(v, ws)})
		}
	}
	return r
}

func trimFields(f []po.HeaderField) []po.HeaderField {
	var r []po.HeaderField
	for _, x := range f {
		r = append(r, po.HeaderField{Key: strings.TrimSpace(x.Key), Value: strings.Trim(x.Value, " \t\v\f\r")})
	}
	return r
}

func checkP26(c p26Case, x *Ctx) error {
	x.NonTrivial(len(c.Fields) > 1)
	x.Label("template", c.Template)
	for _, f := range c.Fields {
		x.Label("value with colon", strings.Contains(f.Value, ":"))
		x.Label("empty value", f.Value == "")
		x.Label("special value", special(f.Value))
	}
	h := po.Header{Template: c.Template, Fields: append([]po.HeaderField(nil), c.Fields...)}
	e := h.ToEntry()
	if e.ID != "" || e.Context != "" || e.Plural != "" || e.Obsolete {
		return fmt.Errorf("the message of a header is %s", showEntry(e))
	}
	if n := strings.Count(e.Str, "\n"); n != len(c.Fields) || strings.Contains("\n"+e.Str, "\n\n") {
		return fmt.Errorf("%d fields are written as %q, not one in each line", len(c.Fields), e.Str)
	}
	want := trimFields(c.Fields)
	same := func(how string, h po.Header) error {
		if h.Template != c.Template {
			return fmt.Errorf("%s: template state %v, was %v", how, h.Template, c.Template)
		}
		if got := trimFields(h.Fields); !reflect.DeepEqual(got, want) {
			return fmt.Errorf("%s: fields %q, want %q", how, got, want)
		}
		return nil
	}
	es := po.Entries{{ID: "a", Str: "b"}, e, {ID: "c"}}
	for how, h2 := range map[string]po.Header{"message": po.EntryToHeader(e), "list": es.Header(), "index": es.HeaderFromIndex(1)} {
		if err := same("back from the "+how, h2); err != nil {
			return err
		}
	}
	if got := h.Fields; !reflect.DeepEqual(append([]po.HeaderField(nil), c.Fields...), got) && len(got)+len(c.Fields) > 0 {
		return fmt.Errorf("conversion altered the header: %v", got)
	}
	f, err := parse.PoFromString(compile.PoToString(es), "n")
	if err != nil {
		return err
	}
	if err := same("back from PO text", f.Header()); err != nil {
		return err
	}
	// Any text at all.
	any := po.EntryToHeader(po.Entry{Str: c.Text})
	if got, want := trimFields(any.Fields), trimFields(modelHeader(c.Text)); !reflect.DeepEqual(got, want) {
		return fmt.Errorf("fields of the text %q are %q, want %q", c.Text, got, want)
	}
	_ = any.ToConfig()
	_ = any.Nplurals()
	return nil
}

// --- P27 -------------------------------------------------------------------

type hop struct {
	Op, Key string
	Values  []string
}

type pluralForms struct {
	Text string
	N    uint
	Rule string
}

type p27Case struct {
	Start  []po.HeaderField
	Ops    []hop
	Config po.HeaderConfig
	Forms  pluralForms
	Opts   []headerOpt
}

var rules = []string{"(n != 1)", "n != 1", "0", "n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2", "(n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2)", "n>1"}

func formCount(t *rapid.T, least int) uint {
	if chance(t, "formcount.large", 5) {
		return oneOf[uint](t, "formcount.edge", 13, 99, 100, 255, 256, 1000, 65536, 1<<31-1, 1<<32, 1<<63-1)
	}
	return uint(intn(t, "formcount", least, 12))
}

func drawP27(t *rapid.T) p27Case {
	var c p27Case
	for i := intn(t, "nstart", 0, 4); i > 0; i-- {
		c.Start = append(c.Start, po.HeaderField{Key: headerKey(t, "key"), Value: headerValue(t, "value")})
	}
	for i := intn(t, "nops", 1, 12); i > 0; i-- {
		o := hop{Op: oneOf(t, "op", "set", "register", "load"), Key: headerKey(t, "opkey")}
		if len(c.Start) > 0 && chance(t, "existing", 40) {
			o.Key = oneOf(t, "old", c.Start...).Key
		}
		if o.Op != "load" {
			n := 1
			if o.Op == "register" {
				n = intn(t, "nvalues", 0, 3)
			}
			for ; n > 0; n-- {
				o.Values = append(o.Values, headerValue(t, "opvalue"))
			}
		}
		c.Ops = append(c.Ops, o)
	}
	val := func(l string) string { return headerValue(t, l) }
	c.Config = po.HeaderConfig{
		Template: chance(t, "template", 30), ProjectIDVersion: val("project"), ReportMsgidBugsTo: val("bugs"), PORevisionDate: val("revision"),
		LastTranslator: val("translator"), LanguageTeam: val("team"), Language: val("language"), MimeVersion: oneOf(t, "mime", "1.0", "1.1"),
		MediaType: "text/plain", Charset: oneOf(t, "charset", "UTF-8", "ISO-8859-1", "ASCII", "EUC-JP", "GB18030"), ContentTransferEncoding: "8bit",
		XGenerator: val("generator"),
	}
	if c.Config.Template {
		c.Config.POTCreationDate = val("creation")
		c.Config.Nplurals = 2
	} else {
		c.Config.Nplurals, c.Config.Plural = formCount(t, 1), oneOf(t, "rule", rules...)
	}
	seen := map[string]bool{}
	for _, k := range headerKeys[:12] {
		seen[k] = true
	}
	extras := intn(t, "nextra", 0, 3)
	if chance(t, "manyextras", 3) {
		extras = intn(t, "nmanyextras", 4, 40)
	}
	for i := extras; i > 0; i-- {
		f := po.HeaderField{Key: headerKey(t, "xkey"), Value: val("xvalue")}
		if !seen[f.Key] && f.Value != "" {
			seen[f.Key] = true
			c.Config.ExtraFields = append(c.Config.ExtraFields, f)
		}
	}
	if chance(t, "portable", 50) {
		c.Config.Charset = portableCharset(t)
	}
	c.Opts = drawHeaderOpts(t)
	n := formCount(t, 0)
	r := oneOf(t, "frule", rules...)
	c.Forms = pluralForms{N: n, Rule: r}
	switch intn(t, "fkind", 0, 9) {
	case 0:
		c.Forms.Text = oneOf(t, "invalid", "", "x", "nplurals=INTEGER; plural=EXPRESSION;", "nplurals=-1; plural=0;", "nplurals=99999999999999999999999; plural=0;", "nplurals=; plural=0", ";;;", "=", "nplurals", "plural=n != 1;")
		c.Forms.N, c.Forms.Rule = 2, ""
	default:
		c.Forms.Text = fmt.Sprintf(oneOf(t, "fmt", "nplurals=%d; plural=%s;", "nplurals=%d; plural=%s", "nplurals=%d;plural=%s;", " nplurals = %d ; plural = %s ; ", "nplurals=%d;  plural=%s;", "nplurals=0%d; plural=%s;"), n, r)
	}
	return c
}

func checkP27(c p27Case, x *Ctx) error {
	h := po.Header{Fields: append([]po.HeaderField(nil), c.Start...)}
	model := append([]po.HeaderField(nil), c.Start...)
	find := func(k string) int {
		for i, f := range model {
			if f.Key == k {
				return i
			}
		}
		return -1
	}
	for i, o := range c.Ops {
		k := find(o.Key)
		x.Label(o.Op+" present", k >= 0)
		x.Label(o.Op+" absent", k < 0)
		switch o.Op {
		case "set":
			h.Set(o.Key, o.Values[0])
			if k >= 0 {
				model[k].Value = o.Values[0]
			} else {
				model = append(model, po.HeaderField{Key: o.Key, Value: o.Values[0]})
			}
		case "register":
			h.Register(o.Key, o.Values...)
			if k < 0 {
				model = append(model, po.HeaderField{Key: o.Key, Value: strings.Join(o.Values, "")})
			}
		case "load":
			want := ""
			if k >= 0 {
				want = model[k].Value
			}
			if got := h.Load(o.Key); got != want {
				return fmt.Errorf("step %d: Load(%q) = %q, want %q", i, o.Key, got, want)
			}
		}
		if len(h.Fields)+len(model) > 0 && !reflect.DeepEqual(h.Fields, model) {
			return fmt.Errorf("step %d, %s %q %q: fields are %q, want %q", i, o.Op, o.Key, o.Values, h.Fields, model)
		}
	}
	x.NonTrivial(len(c.Ops) > 2)
	// Configuration.
	got := c.Config.ToHeader().ToConfig()
	want := c.Config
	if len(got.ExtraFields) == 0 {
		got.ExtraFields = nil
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("configuration to header and back gives\n%+v\nwant\n%+v", got, want)
	}
	ch := c.Config.ToHeader()
	if !c.Config.Template && ch.Nplurals() != c.Config.Nplurals {
		return fmt.Errorf("a header made for %d plural forms states %d", c.Config.Nplurals, ch.Nplurals())
	}
	for _, f := range []struct{ key, val string }{
		{"Project-Id-Version", want.ProjectIDVersion}, {"Report-Msgid-Bugs-To", want.ReportMsgidBugsTo}, {"PO-Revision-Date", want.PORevisionDate},
		{"Last-Translator", want.LastTranslator}, {"Language-Team", want.LanguageTeam}, {"Language", want.Language}, {"MIME-Version", want.MimeVersion}, {"Content-Transfer-Encoding", "8bit"}, {"X-Generator", want.XGenerator},
	} {
		if got := ch.Load(f.key); got != f.val {
			return fmt.Errorf("field %s of the header of a configuration is %q, want %q", f.key, got, f.val)
		}
	}
	if m, p, err := mime.ParseMediaType(ch.Load("Content-Type")); err != nil || m != "text/plain" || p["charset"] != want.Charset {
		return fmt.Errorf("Content-Type %q for charset %s", ch.Load("Content-Type"), want.Charset)
	}
	if err := checkHeaderOpts(c.Opts, x); err != nil {
		return err
	}
	// Plural forms.
	ph := po.Header{Fields: []po.HeaderField{{Key: "Plural-Forms", Value: c.Forms.Text}}}
	if got := ph.Nplurals(); got != c.Forms.N {
		return fmt.Errorf("Plural-Forms %q states %s forms, got %d", c.Forms.Text, strconv.Itoa(int(c.Forms.N)), got)
	}
	pc := ph.ToConfig()
	if pc.Nplurals != c.Forms.N || (c.Forms.Rule != "" && pc.Plural != c.Forms.Rule) {
		return fmt.Errorf("Plural-Forms %q converts to nplurals %d and plural %q", c.Forms.Text, pc.Nplurals, pc.Plural)
	}
	var none po.Header
	if none.Nplurals() != 2 {
		return fmt.Errorf("a header without Plural-Forms has %d forms", none.Nplurals())
	}
	return nil
}

func init() {
	register("P26", 100000, 2000000,
		"0-6 fields with standard and arbitrary names and one-line values (colons, semicolons, Unicode, controls), through the message, a list and PO text; arbitrary text read as header; non-trivial: at least two fields",
		func(t *rapid.T) p26Case {
			c := p26Case{Template: chance(t, "template", 30)}
			for i := intn(t, "nfields", 0, 6); i > 0; i-- {
				c.Fields = append(c.Fields, po.HeaderField{Key: headerKey(t, "key"), Value: headerValue(t, "value")})
			}
			if k := intn(t, "many", 0, 999); k%83 == 41 {
				for i := 0; i < 15+k%40; i++ {
					c.Fields = append(c.Fields, po.HeaderField{Key: fmt.Sprint("X-Many-", i), Value: headerValue(t, "manyvalue")})
				}
			}
			for i := intn(t, "nlines", 0, 5); i > 0; i-- {
				c.Text += oneOf(t, "sep", "", ":", ": ", " : ", "::") + text(t, "line") + oneOf(t, "end", "\n", "\n", "\r\n", "", ":")
			}
			return c
		}, checkP26)
	register("P27", 100000, 2000000,
		"1-12 Set/Register/Load operations on a header of 0-4 (possibly repeated) fields; a random configuration to header and back; 0-8 options of header configurations, with every portable character set; Plural-Forms values in several layouts, valid and not; non-trivial: more than two operations",
		drawP27, checkP27)
}
