package main

import (
	"fmt"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
	"pgregory.net/rapid"
)

var allOpts = entryOpts{meta: true, obsolete: true, fuzzy: true, untrans: true, plural: true, context: true}

type p01Case struct {
	Header  bool
	Wrap    bool
	Entries po.Entries
	Crowd   int
}

func init() {
	register("P01", 80000, 1600000,
		"message lists (0-6 messages, distinct ids) with every field and adversarial text, both string layouts; non-trivial: some text needs escaping, or an obsolete message carries comments, or at least 2 messages",
		func(t *rapid.T) p01Case {
			c := p01Case{Header: chance(t, "header", 50), Wrap: rapid.Bool().Draw(t, "wrap")}
			c.Entries = enlarge(t, entries(t, allOpts, 0, 6), false)
			c.Crowd = crowdSize(t)
			for i := range c.Entries { // a flag that is there twice
				if f := c.Entries[i].Flags; len(f) > 0 && chance(t, "flagtwice", 5) {
					c.Entries[i].Flags = append(f[:len(f):len(f)], oneOf(t, "whichflag", f...))
				}
			}
			for _, e := range c.Entries { // a reference with a line number may have any file name
				for i, l := range e.Locations {
					if l.Line >= 0 && chance(t, "spaced", 8) {
						e.Locations[i].File = oneOf(t, "spacedname", "my file.go", "a dir/x y z.go", "(1) a.c", "v 1:2/b.go")
					}
				}
			}
			return c
		},
		func(c p01Case, x *Ctx) error {
			es := crowd(clone(c.Entries), c.Crowd)
			if c.Header {
				es = append(po.Entries{header()}, es...)
			}
			x.NonTrivial(anySpecial(es) || len(c.Entries) >= 2 || has(es, func(e po.Entry) bool { return e.Obsolete && e.HasComments() }))
			x.Label("obsolete", has(es, func(e po.Entry) bool { return e.Obsolete }))
			x.Label("obsolete+comments", has(es, func(e po.Entry) bool { return e.Obsolete && e.HasComments() }))
			x.Label("plural", has(es, func(e po.Entry) bool { return e.Plural != "" }))
			x.Label("special text", anySpecial(es))
			x.Label("wrap", c.Wrap)
			x.Label("unusual size", has(es, unusual))
			x.Label("100 or more messages", c.Crowd > 0)
			out := compile.PoToString(clone(es), compile.PoWithWordWrap(c.Wrap))
			f, err := parse.PoFromString(out, "rt.po")
			if err != nil {
				return fmt.Errorf("reading back failed: %v\ntext:\n%s", err, out)
			}
			if err := diffEntries(f.Entries, activeThenObsolete(es)); err != nil {
				return fmt.Errorf("%v\ntext:\n%s", err, out)
			}
			return nil
		})
}
