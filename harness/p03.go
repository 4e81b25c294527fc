package main

import (
	"fmt"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
	"pgregory.net/rapid"
)

// layout renders messages as PO text in a randomly chosen layout.
type layout struct {
	t    *rapid.T
	eol  string
	b    strings.Builder
	busy int // per-cent chance of unusual choices
	used map[string]bool
}

func (l *layout) odd(label string) bool {
	r := chance(l.t, label, l.busy)
	if r {
		l.used[label] = true
	}
	return r
}

// char renders one character of a string.
func (l *layout) char(r rune, next byte) string {
	simple := map[rune]string{'\n': `\n`, '\t': `\t`, '\r': `\r`, '\a': `\a`, '\b': `\b`, '\f': `\f`, '\v': `\v`, '"': `\"`, '\\': `\\`}
	num := func() string {
		var b strings.Builder
		for i, c := range []byte(string(r)) {
			hexNext := strings.IndexByte("0123456789abcdefABCDEF", next) >= 0 && i == len(string(r))-1
			octNext := strings.IndexByte("01234567", next) >= 0 && i == len(string(r))-1
			if !octNext && c < 64 && chance(l.t, "short octal", 30) {
				fmt.Fprintf(&b, `\%o`, c)
			} else if !hexNext && chance(l.t, "hex", 40) {
				fmt.Fprintf(&b, oneOf(l.t, "hexcase", `\x%02x`, `\x%02X`), c)
			} else {
				fmt.Fprintf(&b, `\%03o`, c)
			}
		}
		return b.String()
	}
	s, must := simple[r]
	switch {
	case must && (r == '"' || r == '\\'):
		if l.odd("numeric escape of a quote") {
			return num()
		}
		return s
	case must:
		if r != '\n' && l.odd("raw control character") {
			return string(r)
		}
		if l.odd("numeric escape of a control") {
			return num()
		}
		return s
	case r < 32 || r == 127:
		if l.odd("raw control character") {
			return string(r)
		}
		return num()
	default:
		if chance(l.t, "esc", l.busy/4) {
			l.used["numeric escape of text"] = true
			return num()
		}
		return string(r)
	}
}

// str renders a string as one or more quoted chunks; sep separates them.
func (l *layout) str(s string, sep func() string) string {
	rs := []rune(s)
	var chunks []string
	var cur strings.Builder
	if l.odd("leading empty chunk") {
		chunks = append(chunks, "")
	}
	splitNL := l.odd("one chunk per line")
	for i, r := range rs {
		next := byte(0)
		if i+1 < len(rs) && rs[i+1] < 128 {
			next = byte(rs[i+1])
		}
		cur.WriteString(l.char(r, next))
		if i+1 < len(rs) && ((splitNL && r == '\n') || chance(l.t, "cut", l.busy/6)) {
			chunks = append(chunks, cur.String())
			cur.Reset()
			l.used["several chunks"] = true
		}
	}
	chunks = append(chunks, cur.String())
	var b strings.Builder
	for i, c := range chunks {
		if i > 0 {
			b.WriteString(sep())
		}
		b.WriteString(`"` + c + `"`)
	}
	return b.String()
}

func (l *layout) nl() { l.b.WriteString(l.eol) }

func (l *layout) blank() {
	for i := intn(l.t, "blanks", 0, 3); i > 0; i-- {
		if l.odd("blank line with spaces") {
			l.b.WriteString(oneOf(l.t, "ws", " ", "\t", "   ", "\f", "\v"))
		}
		l.nl()
	}
}

func (l *layout) indent() {
	if l.odd("indentation") {
		l.b.WriteString(oneOf(l.t, "ind", " ", "\t", "    ", "\f", " \v"))
	}
}

func (l *layout) comments(e po.Entry) {
	// queues of rendered comment lines; order kept within a queue
	var qs [][]string
	var q []string
	for _, c := range e.Comments {
		space := " "
		if c == "" || (!strings.ContainsRune(":.,|~ ", rune(c[0])) && l.odd("comment without space")) {
			space = ""
		}
		q = append(q, "#"+space+c)
	}
	qs = append(qs, q)
	q = nil
	for _, c := range e.ExtractedComments {
		space := " "
		if c == "" || (c[0] != ' ' && l.odd("extracted comment without space")) {
			space = ""
		}
		q = append(q, "#."+space+c)
	}
	qs = append(qs, q)
	q = nil
	for i := 0; i < len(e.Locations); {
		s := "#:" + oneOf(l.t, "refsp", " ", " ", "", "  ")
		for first := true; i < len(e.Locations) && (first || ((e.Locations[i-1].Line >= 0 || e.Locations[i].Line < 0) && l.odd("several references on a line"))); i++ {
			if !first {
				s += oneOf(l.t, "refsep", " ", "  ", "\t")
			}
			first = false
			s += e.Locations[i].File
			if e.Locations[i].Line >= 0 {
				s += fmt.Sprintf(":%d", e.Locations[i].Line)
			}
		}
		q = append(q, s)
	}
	qs = append(qs, q)
	q = nil
	for i := 0; i < len(e.Flags); {
		s := "#," + oneOf(l.t, "flsp", " ", " ", "", "  ")
		for first := true; i < len(e.Flags) && (first || l.odd("several flags on a line")); i++ {
			if !first {
				s += oneOf(l.t, "flsep", ", ", ",", " , ")
			}
			first = false
			s += e.Flags[i]
		}
		q = append(q, s)
	}
	qs = append(qs, q)
	q = nil
	for _, p := range e.Previous {
		mark := "#| "
		if e.Obsolete && !l.odd("obsolete entry with active previous marker") {
			mark = "#~| "
		}
		q = append(q, mark+p)
	}
	qs = append(qs, q)
	shuffled := l.odd("comments in mixed order")
	for {
		var live []int
		for i := range qs {
			if len(qs[i]) > 0 {
				live = append(live, i)
			}
		}
		if len(live) == 0 {
			return
		}
		k := live[0]
		if shuffled {
			k = oneOf(l.t, "which", live...)
		}
		l.b.WriteString(qs[k][0])
		l.nl()
		qs[k] = qs[k][1:]
	}
}

func (l *layout) field(e po.Entry, kw, s string) {
	pre := ""
	if e.Obsolete {
		pre = oneOf(l.t, "obsprefix", "#~ ", "#~ ", "#~ ", "#~", "#~  ")
	} else {
		l.indent()
	}
	gap := oneOf(l.t, "gap", " ", " ", " ", "  ", "\t", "", " \f", "\v")
	sep := func() string {
		if e.Obsolete {
			return l.eol + "#~ "
		}
		if l.odd("chunks on one line") {
			return oneOf(l.t, "chunksep", " ", "", "\t", "\f", "\v ")
		}
		return l.eol
	}
	if !e.Obsolete && l.odd("string on next line") {
		gap = l.eol
	}
	l.b.WriteString(pre + kw + gap + l.str(s, sep))
	l.nl()
}

func (l *layout) entry(e po.Entry) {
	l.comments(e)
	if e.Context != "" {
		l.field(e, "msgctxt", e.Context)
	}
	l.field(e, "msgid", e.ID)
	if e.Plural == "" {
		l.field(e, "msgstr", e.Str)
		return
	}
	l.field(e, "msgid_plural", e.Plural)
	for _, p := range e.Plurals {
		kw := fmt.Sprintf("msgstr[%d]", p.ID)
		if l.odd("spaces in index") {
			kw = fmt.Sprintf("msgstr [ %d ]", p.ID)
		}
		l.field(e, kw, p.Str)
	}
}

// renderLayout renders the messages, returning the text and the unusual choices made.
func renderLayout(t *rapid.T, es po.Entries) (string, map[string]bool) {
	l := &layout{t: t, eol: "\n", used: map[string]bool{}}
	l.busy = oneOf(t, "busy", 5, 20, 50)
	if chance(t, "crlf", 25) {
		l.eol = "\r\n"
		l.used["CRLF"] = true
	}
	for _, e := range es {
		l.entry(e)
		l.blank()
	}
	s := l.b.String()
	if chance(t, "nofinal", 30) {
		s = strings.TrimRight(s, "\r\n \t")
		l.used["no final newline"] = true
	}
	return s, l.used
}

type p03Case struct {
	GNU     []string // options of msgcat if the layout is made by it
	Text    string
	Layout  []string
	Entries po.Entries
}

func init() {
	register("P03", 40000, 800000,
		"0-5 messages with all fields rendered by the harness in a random layout; non-trivial: at least one unusual layout choice was made",
		func(t *rapid.T) p03Case {
			es := enlarge(t, entries(t, allOpts, 0, 5), false)
			for i := range es {
				for j, l := range es[i].Locations { // several may share a line
					es[i].Locations[j].File = strings.ReplaceAll(l.File, " ", "_")
				}
			}
			if chance(t, "header", 50) {
				es = append(po.Entries{header()}, es...)
			}
			if chance(t, "gnu", 10) {
				es = entries(t, entryOpts{obsolete: true, fuzzy: true, untrans: true, plural: true, context: true}, 1, 5)
				es = enlarge(t, es, true)
				gnuMeta(t, es, false)
				c := p03Case{GNU: []string{"--force-po"}, Text: plainPO(append(po.Entries{header()}, es...)), Entries: append(po.Entries{header()}, es...)}
				for _, o := range []string{"--escape", "--indent", "--no-wrap", "--width=20", "--width=40", "--add-location=full"} {
					if chance(t, o, 30) {
						c.GNU = append(c.GNU, o)
					}
				}
				return c
			}
			text, used := renderLayout(t, es)
			return p03Case{nil, text, sortedKeys(used), es}
		},
		func(c p03Case, x *Ctx) error {
			x.NonTrivial(len(c.Layout) > 0)
			for _, l := range c.Layout {
				x.Label(l, true)
			}
			x.Label("obsolete", has(c.Entries, func(e po.Entry) bool { return e.Obsolete }))
			x.Label("unusual size", has(c.Entries, unusual))
			if c.GNU != nil {
				x.NonTrivial(len(c.GNU) > 1)
				for _, o := range c.GNU {
					x.Label("msgcat "+o, true)
				}
				r := runTool(x.Dir(), c.Text, "msgcat", append(c.GNU, "-")...)
				if r.code != 0 {
					must(fmt.Errorf("msgcat: %s\n%s", r.stderr, c.Text))
				}
				f, err := parse.PoFromString(r.stdout, "gnu.po")
				if err != nil {
					return fmt.Errorf("not read: %v\ntext:\n%s", err, r.stdout)
				}
				if err := diffMaps(f.Entries, c.Entries, gnuNorm); err != nil {
					return fmt.Errorf("%v\ntext:\n%s", err, r.stdout)
				}
				return nil
			}
			f, err := parse.PoFromString(c.Text, "layout.po")
			if err != nil {
				return fmt.Errorf("not read: %v\ntext:\n%s", err, c.Text)
			}
			if err := diffEntries(f.Entries, activeThenObsolete(c.Entries)); err != nil {
				return fmt.Errorf("%v\ntext:\n%s", err, c.Text)
			}
			return nil
		})
}
