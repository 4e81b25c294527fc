package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"pgregory.net/rapid"
)

type p02Case struct {
	Wrap    bool
	Entries po.Entries
}

// gnuMeta gives messages comments GNU gettext carries unchanged.
func gnuMeta(t *rapid.T, es po.Entries, unknownLines bool) {
	for i := range es {
		e := &es[i]
		if e.Obsolete && untranslated(*e) { // gettext drops these
			e.Obsolete = false
		}
		e.Comments = texts(t, "comment", 3, gnuComment)
		e.ExtractedComments = texts(t, "extracted", 2, gnuComment)
		if chance(t, "haslocs", 40) {
			for i := intn(t, "nlocs", 1, 3); i > 0; i-- {
				e.Locations = append(e.Locations, location(t, "loc", unknownLines))
			}
		}
		// (one format flag at most: gettext resolves contradictions)
		if chance(t, "format", 25) {
			e.Flags = append(e.Flags, oneOf(t, "fmt", "c-format", "no-python-format", "sh-format"))
		}
		if chance(t, "nowrap", 15) {
			e.Flags = append(e.Flags, "no-wrap")
		}
		if chance(t, "prev", 20) {
			if chance(t, "prevctx", 30) {
				e.Previous = append(e.Previous, "msgctxt "+quoteC(gnuText(t, "pctx", true)))
			}
			e.Previous = append(e.Previous, "msgid "+quoteC(gnuText(t, "pid", true)))
			if chance(t, "prevplural", 30) {
				e.Previous = append(e.Previous, "msgid_plural "+quoteC(gnuText(t, "pplural", true)))
			}
		}
	}
}

// decodePrev joins the quoted parts of previous-id lines, so that layouts compare equal.
func decodePrev(lines []string) []string {
	var out []string
	for _, l := range lines {
		i := strings.IndexByte(l, '"')
		if i < 0 {
			out = append(out, l)
			continue
		}
		kw := strings.TrimSpace(l[:i])
		s, err := unquoteC(l[i:])
		if err != nil {
			out = append(out, l)
			continue
		}
		if kw == "" && len(out) > 0 {
			out[len(out)-1] += s
		} else {
			out = append(out, kw+":"+s)
		}
	}
	return out
}

// gnuNorm reduces a message to what GNU gettext promises to keep.
func gnuNorm(e po.Entry) po.Entry {
	e = canon(e)
	if untranslated(e) { // gettext drops the flag
		e.Flags = without(e.Flags, "fuzzy")
	}
	sort.Strings(e.Flags)
	seen := map[po.Location]bool{}
	var ls po.Locations
	for _, l := range e.Locations {
		l.File = strings.TrimPrefix(l.File, "./") // gettext drops this too
		if !seen[l] {
			seen[l] = true
			ls = append(ls, l)
		}
	}
	e.Locations = ls
	e.Previous = decodePrev(e.Previous)
	return e
}

func init() {
	register("P02", 6000, 120000,
		"a header and 0-6 messages with all fields and adversarial text, written by the library, rewritten by msgcat, read by the harness's own reader; non-trivial: some text needs escaping, or comments/obsolete messages present",
		func(t *rapid.T) p02Case {
			o := allOpts
			o.meta = false
			c := p02Case{Wrap: rapid.Bool().Draw(t, "wrap"), Entries: entries(t, o, 0, 6)}
			gnuMeta(t, c.Entries, true)
			c.Entries = enlarge(t, c.Entries, true)
			return c
		},
		func(c p02Case, x *Ctx) error {
			es := append(po.Entries{header()}, c.Entries...)
			x.NonTrivial(anySpecial(c.Entries) || has(c.Entries, func(e po.Entry) bool { return e.Obsolete || e.HasComments() }))
			x.Label("obsolete", has(es, func(e po.Entry) bool { return e.Obsolete }))
			x.Label("previous", has(es, func(e po.Entry) bool { return len(e.Previous) > 0 }))
			x.Label("special text", anySpecial(c.Entries))
			x.Label("unusual size", has(es, unusual))
			out := compile.PoToString(clone(es), compile.PoWithWordWrap(c.Wrap))
			r := runTool(x.Dir(), out, "msgcat", "--force-po", "--no-wrap", "-")
			if r.code != 0 {
				return fmt.Errorf("msgcat exits %d: %s\ntext:\n%s", r.code, r.stderr, out)
			}
			got, err := readCanonicalPO(r.stdout)
			must(err)
			if err := diffMaps(got, es, gnuNorm); err != nil {
				return fmt.Errorf("%v\ntext:\n%s\nmsgcat:\n%s", err, out, r.stdout)
			}
			return nil
		})
}
