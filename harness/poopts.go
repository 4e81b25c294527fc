package main

import (
	"bytes"
	"fmt"
	"os"
	"regexp"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
	"pgregory.net/rapid"
)

// --- P35: highlighting -----------------------------------------------------

// ansi is a colour of the harness: it writes its codes whatever the environment says.
type ansi int

func (a ansi) Sprint(x ...any) string {
	return fmt.Sprintf("\x1b[%dm%s\x1b[0m", int(a), fmt.Sprint(x...))
}

func (a ansi) Sprintf(f string, x ...any) string { return a.Sprint(fmt.Sprintf(f, x...)) }

type style struct {
	Class                           string
	Color, Bg, Weight, Style, Under int
}

type p35Case struct {
	Entries po.Entries
	Opts    poWriteOpts
	Builtin int // 1: TestHighlight, 2: DefaultHighlight, 0: Styles
	Styles  []style
	Text    []byte // for highlighting of existing text
}

func (c p35Case) css() compile.CSSClassesHighlighting {
	switch c.Builtin {
	case 1:
		return compile.TestHighlight
	case 2:
		return compile.DefaultHighlight
	}
	m := compile.CSSClassesHighlighting{}
	for _, s := range c.Styles {
		p := compile.HighlightCSSProperties{FontWeight: compile.HighlightFontWeight(s.Weight), FontStyle: compile.HighlightFontStyle(s.Style), TextDecoration: compile.HighlightTextDecoration(s.Under)}
		if s.Color > 0 {
			p.Color = ansi(s.Color)
		}
		if s.Bg > 0 {
			p.BackgroundColor = ansi(s.Bg)
		}
		m[s.Class] = p
	}
	return m
}

var ansiCode = regexp.MustCompile("\x1b\\[[0-9;]*m")

func drawP35(t *rapid.T) p35Case {
	c := p35Case{Entries: enlarge(t, anyEntries(t, 3), false), Opts: drawWriteOpts(t), Builtin: intn(t, "builtin", 0, 3)}
	c.Opts.Highlight = 0
	if c.Builtin == 0 || c.Builtin == 3 {
		c.Builtin = 0
		classes := []string{"msgid", "msgstr", "comment", "keyword", "string", "text", "msgid text", "msgstr text", "msgid string", "msgstr string", "fuzzy", "obsolete", "translated", "untranslated", "translator-comment", "reference", "flag", "escape-sequence", "", " "}
		for i := intn(t, "nstyles", 0, 6); i > 0; i-- {
			c.Styles = append(c.Styles, style{Class: oneOf(t, "class", classes...), Color: oneOf(t, "color", 0, 31, 97), Bg: oneOf(t, "bg", 0, 44), Weight: intn(t, "weight", 0, 1), Style: intn(t, "style", 0, 2), Under: intn(t, "under", 0, 1)})
		}
	}
	switch intn(t, "text", 0, 2) {
	case 0:
		c.Text = []byte(plainPO(c.Entries))
	case 1:
		s, _ := renderLayout(t, entries(t, allOpts, 0, 3))
		c.Text = []byte(s)
	default:
		c.Text = mutate(t, []byte(plainPO(c.Entries)), poTokens)
	}
	return c
}

func checkP35(c p35Case, x *Ctx) error {
	strip := func(s string) string { return ansiCode.ReplaceAllString(s, "") }
	f := &po.File{Name: "n.po", Entries: clone(c.Entries)}
	plain := compile.PoToString(f, c.Opts.options()...)
	css := c.css()
	colored := compile.PoToString(f, append(c.Opts.options(), compile.PoWithHighlight(css))...)
	if strip(colored) != strip(plain) {
		return fmt.Errorf("without its colours the highlighted text is\n%q\nthe text itself is\n%q", strip(colored), strip(plain))
	}
	x.NonTrivial(colored != plain)
	x.Label("built-in style", c.Builtin > 0)
	x.Label("own style", c.Builtin == 0)
	x.Label("coloured obsolete message", colored != plain && has(c.Entries, func(e po.Entry) bool { return e.Obsolete }))
	x.Label("word wrap", c.Opts.Wrap && colored != plain)
	type hl struct {
		name string
		run  func(compile.CSSClassesHighlighting) ([]byte, error)
	}
	for _, h := range []hl{
		{"Highlight", func(s compile.CSSClassesHighlighting) ([]byte, error) {
			return compile.Highlight(s, "n", string(c.Text))
		}},
		{"HighlightFromBytes", func(s compile.CSSClassesHighlighting) ([]byte, error) {
			return compile.HighlightFromBytes(s, "n", c.Text)
		}},
		{"HighlightFromReader", func(s compile.CSSClassesHighlighting) ([]byte, error) {
			return compile.HighlightFromReader(s, "n", bytes.NewReader(c.Text))
		}},
	} {
		for _, s := range []compile.CSSClassesHighlighting{nil, {}, css} {
			got, err := h.run(s)
			if err != nil {
				x.Label("text refused", true)
				if _, perr := parse.PoFromBytes(c.Text, "n"); perr == nil {
					return fmt.Errorf("%s refuses text that is valid: %v", h.name, err)
				}
				continue
			}
			x.Label("text highlighted", true)
			if len(s) == 0 && string(got) != string(c.Text) {
				return fmt.Errorf("%s with no style gives\n%q for\n%q", h.name, got, c.Text)
			}
			if strip(string(got)) != strip(string(c.Text)) {
				return fmt.Errorf("%s without colours gives\n%q for\n%q", h.name, strip(string(got)), c.Text)
			}
		}
	}
	return nil
}

// --- P36: writer options ----------------------------------------------------

type p36Case struct {
	Entries po.Entries
	Opts    poWriteOpts
}

func drawP36(t *rapid.T) p36Case {
	c := p36Case{Entries: anyEntries(t, 4), Opts: drawWriteOpts(t)}
	c.Opts.Highlight = 0
	if c.Opts.CommentFuzzy {
		for i, e := range c.Entries {
			if e.ID == "" {
				c.Entries[i].Flags = nil
			}
		}
	}
	return c
}

// expectWritten is the harness's model of what reading back the written text gives.
func (c p36Case) expectWritten() (want po.Entries) {
	o := c.Opts
	es := clone(c.Entries)
	hi := -1
	for i, e := range es {
		if e.ID == "" && e.Context == "" {
			hi = i
			break
		}
	}
	if hi >= 0 && (o.Omit || o.Manage) {
		h := es[hi]
		es = append(es[:hi:hi], es[hi+1:]...)
		if !o.Omit {
			if o.HComments {
				h.Comments = []string{o.Title}
				if o.Foreign {
					h.Comments = append(h.Comments, "This file is put in the public domain.")
				} else {
					h.Comments = append(h.Comments, "Copyright (C) "+o.Holder, "This file is distributed under the same license as the "+o.Package+" package.")
				}
				h.Comments = append(h.Comments, "")
			}
			switch {
			case !o.HFields:
				h.Str = ""
			case o.HConfig != nil:
				h.Str = ""
				for _, f := range o.HConfig.ToHeader().Fields {
					h.Str += f.Key + ": " + strings.TrimSpace(f.Value) + "\n"
				}
			}
			es = append(po.Entries{h}, es...)
		}
	}
	for _, e := range activeThenObsolete(es) {
		isHeader := e.ID == "" && e.Context == ""
		if o.NoLoc || o.AddLoc == "never" {
			e.Locations = nil
		} else if o.AddLoc == "file" {
			for i := range e.Locations {
				e.Locations[i].Line = -1
			}
		}
		if e.Plural != "" && len(e.Plurals) == 0 {
			e.Plurals = po.PluralEntries{{ID: 0}, {ID: 1}}
		} else {
			for i := range e.Plurals {
				e.Plurals[i].Str = o.Prefix + e.Plurals[i].Str + o.Suffix
			}
			if e.Plural == "" && !isHeader {
				e.Str = o.Prefix + e.Str + o.Suffix
			}
		}
		want = append(want, e)
	}
	return want
}

var commentedOut = regexp.MustCompile(`(?m)^# (msg|"|#)`)

func checkP36(c p36Case, x *Ctx) error {
	o := c.Opts
	text := compile.PoToString(clone(c.Entries), o.options()...)
	read := func(s string) (po.Entries, error) {
		f, err := parse.PoFromString(s, "n", parse.PoWithCleanDuplicates(false), parse.PoWithUseCustomObsoletePrefix(o.Custom), parse.PoWithCustomObsoletePrefix(o.Rune))
		if err != nil {
			return nil, fmt.Errorf("the written text cannot be read: %v\n%s", err, s)
		}
		return f.Entries, nil
	}
	x.NonTrivial(len(c.Entries) > 0 && (o.Omit || o.NoLoc || o.AddLoc != "full" || o.Prefix+o.Suffix != "" || o.CommentFuzzy || o.Custom || o.Manage))
	want := c.expectWritten()
	got, err := read(text)
	if err != nil {
		return err
	}
	if o.Manage && o.HFields && !o.Omit { // white space around the values does not count
		for _, es := range []po.Entries{got, want} {
			if i := headerAt(es); i >= 0 {
				fields := trimFields(modelHeader(es[i].Str))
				es[i].Str = ""
				for _, f := range fields {
					es[i].Str += f.Key + ": " + f.Value + "\n"
				}
			}
		}
	}
	x.Label("split at line ends", o.Wrap)
	for _, l := range strings.Split(text, "\n") {
		if !strings.HasPrefix(l, "msg") && !strings.HasPrefix(l, `"`) {
			continue
		}
		if !o.Wrap && !o.Manage && l[0] == '"' { // a managed header is always split
			return fmt.Errorf("a string is split although that was not asked for:\n%s", text)
		}
		l = strings.ReplaceAll(l[strings.Index(l, `"`)+1:], `\\`, "")
		if i := strings.Index(l, `\n`); o.Wrap && i >= 0 && l[i:] != `\n"` {
			return fmt.Errorf("a string is not split at its line ends although that was asked for:\n%s", text)
		}
	}
	hidden := func(e po.Entry) bool { return o.CommentFuzzy && isFuzzy(e) && !e.Obsolete }
	x.Label("omit header", o.Omit)
	x.Label("managed header", o.Manage && !o.Omit)
	x.Label("no references", o.NoLoc || o.AddLoc == "never")
	x.Label("file references", o.AddLoc == "file")
	x.Label("prefix or suffix", o.Prefix+o.Suffix != "")
	x.Label("commented fuzzy", has(want, hidden))
	x.Label("custom obsolete marker", o.Custom && has(want, func(e po.Entry) bool { return e.Obsolete }))
	if !has(want, hidden) {
		return diffEntries(got, want)
	}
	// Messages written as comments are not there, and their text ends up in front of the next message.
	var shown po.Entries
	for _, e := range want {
		if !hidden(e) {
			shown = append(shown, e)
		}
	}
	for i := range shown {
		if i < len(got) {
			g := &got[i]
			if n := len(g.Comments) - len(shown[i].Comments); n > 0 {
				g.Comments = g.Comments[n:]
			}
		}
	}
	if err := diffEntries(got, shown); err != nil {
		return fmt.Errorf("fuzzy messages as comments: %v", err)
	}
	for _, e := range want {
		for _, s := range e.Comments {
			if commentedOut.MatchString("# " + s) {
				return nil // a comment like the text of a message
			}
		}
	}
	x.Label("commented fuzzy restored", true)
	back, err := read(commentedOut.ReplaceAllString(text, "$1"))
	if err != nil {
		return err
	}
	if err := diffEntries(back, want); err != nil {
		return fmt.Errorf("fuzzy messages taken out of their comments: %v", err)
	}
	return nil
}

// --- P37: reader options ------------------------------------------------------

type p37Case struct {
	Text    string
	Entries po.Entries // what the text contains
	Opts    poReadOpts
}

func drawP37(t *rapid.T) p37Case {
	c := p37Case{Opts: drawReadOpts(t)}
	if c.Opts.Custom {
		c.Opts.Prefix = oneOf(t, "marker", '~', '!', '$', '*', '+', 'x', '(', '\\', '[', 'é', '-', '^', '?')
	}
	es := entries(t, allOpts, 0, 4)
	if chance(t, "header", 60) {
		h := header()
		if chance(t, "hmeta", 40) {
			h.Comments, h.Flags = []string{"note"}, []string{"fuzzy"}
		}
		p := intn(t, "hpos", 0, len(es))
		es = append(es[:p:p], append(po.Entries{h}, es[p:]...)...)
	}
	for i := intn(t, "ndup", 0, 2); i > 0 && len(es) > 0; i-- {
		e := canon(oneOf(t, "dupof", es...))
		e.Locations = append(e.Locations, location(t, "duploc", false))
		if chance(t, "dupobs", 30) && e.ID != "" {
			e.Obsolete = !e.Obsolete
		}
		if e.Plural == "" {
			e.Str = text(t, "dupstr")
		}
		e.Comments = texts(t, "dupcomment", 2, line)
		p := intn(t, "duppos", 0, len(es))
		es = append(es[:p:p], append(po.Entries{e}, es[p:]...)...)
	}
	for i := range es {
		if es[i].Plural != "" && len(es[i].Plurals) == 0 {
			es[i].Plurals = po.PluralEntries{{ID: 0}, {ID: 1}}
		}
		for j := range es[i].Locations { // plain text has all references in one line
			if es[i].Locations[j].Line < 0 {
				es[i].Locations[j].Line = 7
			}
		}
	}
	if chance(t, "layout", 40) && !c.Opts.Custom {
		c.Text, _ = renderLayout(t, es)
	} else {
		c.Text = plainPO(es)
		if c.Opts.Custom {
			c.Text = strings.ReplaceAll("\n"+c.Text, "\n#~", "\n#"+string(c.Opts.Prefix))
		}
	}
	c.Entries = activeThenObsolete(es)
	return c
}

func checkP37(c p37Case, x *Ctx) error {
	o := c.Opts
	f, err := parse.PoFromString(c.Text, "n.po", o.options()...)
	if err != nil {
		return fmt.Errorf("cannot be read: %v", err)
	}
	var want po.Entries
	dropped := false
	for _, e := range clone(c.Entries) {
		if o.SkipHeader && e.ID == "" && e.Context == "" && !dropped {
			dropped = true
			continue
		}
		if e.Obsolete && (o.NoObsolete || o.IgnoreAll) {
			continue
		}
		if o.IgnoreComments || o.IgnoreAll {
			e.Comments, e.ExtractedComments, e.Previous = nil, nil, nil
		}
		if o.IgnoreAll {
			e.Flags, e.Locations = nil, nil
		}
		want = append(want, e)
	}
	x.NonTrivial(len(c.Entries) > 0 && (o.IgnoreComments || o.IgnoreAll || o.SkipHeader || o.NoObsolete || o.Custom || hasDups(want)))
	x.Label("skip header", dropped)
	x.Label("ignore comments", o.IgnoreComments)
	x.Label("ignore all comments", o.IgnoreAll)
	x.Label("no obsolete", o.NoObsolete)
	x.Label("custom marker", o.Custom)
	x.Label("duplicates removed", !o.NoClean && hasDups(want))
	x.Label("duplicates kept", o.NoClean && hasDups(want))
	if o.NoClean || !hasDups(want) {
		return diffEntries(f.Entries, want)
	}
	return checkDeduped(f.Entries, want)
}

func hasDups(es po.Entries) bool {
	seen := map[string]bool{}
	for _, e := range es {
		if seen[uid(e)] {
			return true
		}
		seen[uid(e)] = true
	}
	return false
}

// checkDeduped judges the removal of duplicates: each id and context once, where it was first, with the
// references of all definitions in order, and everything else from one of them.
func checkDeduped(got, from po.Entries) error {
	defs := map[string]po.Entries{}
	var order []string
	for _, e := range from {
		if _, ok := defs[uid(e)]; !ok {
			order = append(order, uid(e))
		}
		defs[uid(e)] = append(defs[uid(e)], e)
	}
	if len(got) != len(order) {
		return fmt.Errorf("%d messages left, want %d", len(got), len(order))
	}
	for i, e := range got {
		if uid(e) != order[i] {
			return fmt.Errorf("message %d is %s, want the first place of %q", i, showEntry(e), order[i])
		}
		var locs po.Locations
		for _, d := range defs[order[i]] {
			locs = append(locs, d.Locations...)
		}
		ok := false
		for _, d := range defs[order[i]] {
			d.Locations = locs
			ok = ok || sameEntry(d, e)
		}
		if !ok {
			return fmt.Errorf("message %d is %s, not one of its definitions with the references of all:%s", i, showEntry(e), showAll(defs[order[i]]))
		}
	}
	return nil
}

func showAll(es po.Entries) string {
	var b strings.Builder
	for _, e := range es {
		b.WriteString("\n  " + showEntry(e))
	}
	return b.String()
}

func init() {
	os.Setenv("COLORTERM", "truecolor")
	os.Setenv("TERM", "xterm-256color")
	register("P35", 40000, 800000,
		"messages of every kind written with and without the built-in styles and random own styles of 0-6 classes, with random other options; and plain, unusual and damaged PO text highlighted through each entry point; non-trivial: colour codes were written",
		drawP35, checkP35)
	register("P36", 80000, 1600000,
		"0-6 messages of every kind, header, repeated ids, random combinations of all writer options; non-trivial: messages and at least one option that changes the text",
		drawP36, checkP36)
	register("P37", 60000, 1200000,
		"0-7 messages of every kind with header and repeated definitions in plain or random layout, random combinations of all reader options; non-trivial: at least one option or duplicate takes effect",
		drawP37, checkP37)
}
