package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
	"pgregory.net/rapid"
)

type p05Case struct {
	Text, Damage string
	Obsolete     bool
	First, Last  int // lines between which the damage becomes apparent
	Opts         poReadOpts
}

var reportedAt = regexp.MustCompile(`(?:^|\s)dir/damaged\.po:(\d+):\d+: `)

// poLine is one line of the plain layout.
type poLine struct {
	entry    int
	obsolete bool
	kw, str  string // keyword line
	comment  string
}

func (l poLine) String() string {
	if l.kw == "" {
		return l.comment
	}
	s := l.kw + " " + l.str
	if l.obsolete {
		s = "#~ " + s
	}
	return s
}

func plainLines(es po.Entries) []poLine {
	var ls []poLine
	for i, e := range es {
		for _, c := range e.Comments {
			ls = append(ls, poLine{entry: i, comment: "# " + c})
		}
		if len(e.Flags) > 0 {
			ls = append(ls, poLine{entry: i, comment: "#, " + strings.Join(e.Flags, ", ")})
		}
		add := func(kw, s string) { ls = append(ls, poLine{entry: i, obsolete: e.Obsolete, kw: kw, str: quoteC(s)}) }
		if e.Context != "" {
			add("msgctxt", e.Context)
		}
		add("msgid", e.ID)
		if e.Plural == "" {
			add("msgstr", e.Str)
		} else {
			add("msgid_plural", e.Plural)
			for _, p := range e.Plurals {
				add(fmt.Sprintf("msgstr[%d]", p.ID), p.Str)
			}
		}
		ls = append(ls, poLine{entry: i})
	}
	return ls
}

// drawDamage draws damaged text.
func drawDamage(t *rapid.T) p05Case {
	c, ls, from, to := drawDamaged(t)
	// The damage shows in the message it is in, or with the next keyword at the latest.
	c.First, c.Last = from, strings.Count(c.Text, "\n")+4
	for c.First > 0 && ls[c.First-1].entry == ls[from].entry {
		c.First--
	}
	c.First++
	for i := to; i < len(ls); i++ {
		if ls[i].kw != "" && ls[i].obsolete == c.Obsolete {
			c.Last = i + 1 + strings.Count(c.Text, "\n") - len(ls)
			break
		}
	}
	if chance(t, "options", 40) {
		c.Opts = poReadOpts{SkipHeader: chance(t, "skipheader", 40), NoClean: chance(t, "noclean", 40), IgnoreComments: chance(t, "ignorecomments", 40)}
		if !c.Obsolete {
			c.Opts.IgnoreAll = chance(t, "ignoreall", 40)
		}
	}
	return c
}

// drawDamaged also returns the lines before the damage and the lines from..to-1 it is in.
func drawDamaged(t *rapid.T) (c p05Case, ls []poLine, from, to int) {
	es := entries(t, allOpts, 1, 4)
	if chance(t, "header", 30) {
		es = append(po.Entries{header()}, es...)
	}
	ls = plainLines(es)
	var kws []int
	for i, l := range ls {
		if l.kw != "" {
			kws = append(kws, i)
		}
	}
	k := oneOf(t, "line", kws...)
	l := ls[k]
	c.Obsolete = l.obsolete
	from, to = k, k+1
	render := func(ls []poLine) string {
		var b strings.Builder
		for _, l := range ls {
			b.WriteString(l.String() + "\n")
		}
		return b.String()
	}
	mark := func(s string) string {
		if l.obsolete {
			return "#~ " + s
		}
		return s
	}
	replace := func(s string) string { return render(ls[:k]) + s + "\n" + render(ls[k+1:]) }
	switch c.Damage = oneOf(t, "damage", "unterminated string", "unopened string", "missing field", "unknown keyword", "stray text", "plural index", "cut off", "keyword without a string"); c.Damage {
	case "unterminated string":
		s := l.String()
		c.Text = replace(s[:len(s)-1])
	case "unopened string":
		c.Text = replace(mark(l.kw + " x" + l.str[1:]))
	case "missing field":
		if l.kw == "msgctxt" {
			k++
			l = ls[k]
		}
		end := k + 1
		if strings.HasPrefix(l.kw, "msgstr") { // all forms
			for strings.HasPrefix(ls[k-1].kw, "msgstr") {
				k--
			}
			for strings.HasPrefix(ls[end].kw, "msgstr") {
				end++
			}
		}
		c.Damage += " " + l.kw
		c.Text = render(ls[:k]) + render(ls[end:])
		from, to = k, end
	case "keyword without a string":
		c.Text = replace(mark(l.kw))
		from, to = k, k+2
	case "unknown keyword":
		c.Text = replace(mark(oneOf(t, "kw", "msgfoo", "mgsid", "msgi", "Msgid", "MSGSTR", "msgid2", "msgidx", "msgstrs", "id", "domain2", "_", "-") + " " + l.str))
	case "stray text":
		c.Text = render(ls[:k]) + mark(oneOf(t, "stray", "foo", "42", "[", "]", "[0]", "}", "x \"y\"", "<<<<<<< HEAD", "=======", "'a'", "//", ";", "msgid", "msgstr", "msgctxt")) + "\n" + render(ls[k:])
	case "plural index":
		if !strings.HasPrefix(l.kw, "msgstr[") {
			// give a singular entry a broken index
			for !strings.HasPrefix(ls[k].kw, "msgstr") {
				k++
			}
			l = ls[k]
			to = k + 1
		}
		c.Text = replace(mark(oneOf(t, "idx", "msgstr[]", "msgstr[x]", "msgstr[0", "msgstr 0]", "msgstr[-1]", "msgstr[1.5]", "msgstr[[0]]", "msgstr]0[", "msgstr(0)", "msgstr[99999999999999999999]") + " " + l.str))
	case "cut off":
		// somewhere inside the last message, before its first translation ends
		last := ls[len(ls)-1].entry
		first, end := -1, -1
		for i, l := range ls {
			if l.entry == last && l.kw != "" {
				if first < 0 {
					first = i
				}
				if end < 0 && strings.HasPrefix(l.kw, "msgstr") {
					end = i
				}
			}
		}
		c.Obsolete = ls[first].obsolete
		head := render(ls[:first])
		body := strings.TrimSuffix(render(ls[first:end+1]), "\n")
		min := 1
		if c.Obsolete {
			min = 4 // "#~ m"
		}
		n := intn(t, "cut", min, len(body)-1)
		c.Text = head + body[:n]
		from, to = first, len(ls)
	}
	return c, ls, from, to
}

func init() {
	register("P05", 80000, 1600000,
		"1-5 messages (plain layout, comments, obsolete ones included) with one injected damage; non-trivial: the damage is not in the first line of the text",
		drawDamage,
		func(c p05Case, x *Ctx) error {
			x.NonTrivial(strings.Count(c.Text, "\n") > 2)
			x.Label(c.Damage, true)
			x.Label("obsolete", c.Obsolete)
			f, err := parse.PoFromString(c.Text, "dir/damaged.po", c.Opts.options()...)
			if err == nil {
				return fmt.Errorf("%s was read without an error:\n%s\nas %d messages", c.Damage, c.Text, len(f.Entries))
			}
			if !strings.Contains(err.Error(), "dir/damaged.po") {
				return fmt.Errorf("%s: the report %q does not name the file", c.Damage, err)
			}
			m := reportedAt.FindStringSubmatch(err.Error())
			x.Label("with a line", m != nil)
			if m != nil {
				if n, err2 := strconv.Atoi(m[1]); c.Last > 0 && (err2 != nil || n < c.First || n > c.Last) {
					return fmt.Errorf("%s: the report %q names no line from %d to %d of\n%s", c.Damage, err, c.First, c.Last, c.Text)
				}
			}
			return nil
		})
}
