package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"pgregory.net/rapid"
)

// --- P19-P21: concatenating catalogs -----------------------------------------------

type catFile struct {
	Name    string
	Entries po.Entries
}

type catCase struct {
	Files       []catFile
	Less, More  uint
	HasL, HasM  bool
	UseFirst    bool
	WholeConfig bool
}

// version draws another definition of a message.
func version(t *rapid.T, e po.Entry) po.Entry {
	e = canon(e)
	switch intn(t, "version", 0, 7) {
	case 0, 1: // the same translation
	case 2: // untranslated
		e.Str = ""
		for i := range e.Plurals {
			e.Plurals[i].Str = ""
		}
	case 3: // conflict, new lines included
		other := func() string {
			return nonEmpty(t, "other") + oneOf(t, "nl", "", "", "\n")
		}
		if e.Plural == "" {
			e.Str = other()
		} else {
			for i := range e.Plurals {
				if chance(t, "otherform", 60) {
					e.Plurals[i].Str = other()
				}
			}
		}
	case 4:
		if e.Plural != "" && len(e.Plurals) > 0 { // other number of forms
			if chance(t, "more", 50) {
				e.Plurals = append(e.Plurals, po.PluralEntry{ID: len(e.Plurals), Str: nonEmpty(t, "moreform")})
			} else {
				e.Plurals = e.Plurals[:len(e.Plurals)-1]
			}
		}
	case 5:
		if e.Plural == "" {
			e.Plural, e.Plurals, e.Str = "plurals", po.PluralEntries{{ID: 0, Str: e.Str}, {ID: 1, Str: text(t, "form1")}}, ""
		} else {
			e.Plural, e.Plurals, e.Str = "", nil, text(t, "single")
		}
	case 6:
		e.Obsolete = !e.Obsolete
	case 7:
		return e
	}
	if chance(t, "othermeta", 50) {
		e.Comments = texts(t, "comment", 2, line)
		e.ExtractedComments = texts(t, "extracted", 2, line)
		e.Flags = texts(t, "flag", 2, flagText)
	}
	if chance(t, "otherlocs", 60) {
		e.Locations = nil
		for i := intn(t, "nl", 0, 2); i > 0; i-- {
			e.Locations = append(e.Locations, location(t, "loc", true))
		}
	}
	return e
}

func drawCat(t *rapid.T) catCase {
	o := entryOpts{meta: true, obsolete: true, fuzzy: true, untrans: true, plural: true, context: true, bareplural: true, plainIDs: chance(t, "plain", 50)}
	base := entries(t, o, 1, 5)
	if chance(t, "header", 40) {
		base = append(po.Entries{header()}, base...)
	}
	var c catCase
	names := []string{"a.po", "b.po", "dir/c.po", "-", "a.po", "ü.po", "x y.po"}
	for i := oneOf(t, "nfiles", 2, 3, 2, 3, 4, 5, 1, 0, 2, 3, 2, 3, 4, 9, 13); i > 0; i-- {
		f := catFile{Name: oneOf(t, "name", names...)}
		for _, e := range base {
			if chance(t, "in", 65) {
				v := version(t, e)
				if isHeader(e) {
					v.Plural, v.Plurals = "", nil
					v.Obsolete = false
				}
				f.Entries = append(f.Entries, v)
			}
		}
		if chance(t, "own", 30) {
			f.Entries = append(f.Entries, genEntry(t, o))
		}
		f.Entries = dedupeAll(f.Entries)
		if len(f.Entries) > 1 && chance(t, "reverse", 20) {
			for i, j := 0, len(f.Entries)-1; i < j; i, j = i+1, j-1 {
				f.Entries[i], f.Entries[j] = f.Entries[j], f.Entries[i]
			}
		}
		if k := intn(t, "sorted", 0, 999); k%7 == 3 { // in an order of the library
			f.Entries = f.Entries.SortFunc(oneOf(t, "order", po.CompareEntry, po.CompareEntryByID, po.CompareEntryByFile))
		}
		c.Files = append(c.Files, f)
	}
	if k := intn(t, "crowd", 0, 9999); k%997 == 498 { // very many definitions of one message
		e := version(t, base[len(base)-1])
		for i := oneOf(t, "crowdsize", 100, 254, 255, 256, 300, 1100); i > 0 && !isHeader(e); i-- {
			c.Files = append(c.Files, catFile{Name: "crowd.po", Entries: po.Entries{e}})
		}
	}
	return c
}

func dedupeAll(es po.Entries) po.Entries {
	var r po.Entries
	seen := map[string]bool{}
	for _, e := range es {
		if !seen[uid(e)] {
			seen[uid(e)] = true
			r = append(r, e)
		}
	}
	return r
}

func drawBounds(t *rapid.T, c *catCase) {
	if c.HasL = chance(t, "less", 60); c.HasL {
		c.Less = oneOf(t, "lessthan", uint(0), 1, 2, 2, 3, 4, 5, 6, 256, math.MaxUint)
	}
	if c.HasM = chance(t, "more", 60); c.HasM {
		c.More = oneOf(t, "morethan", uint(0), 1, 1, 2, 3, 4, 5, math.MaxUint)
	}
}

func (c catCase) run(files []*po.File) po.Entries {
	var opts []po.MsgcatMergeOption
	if c.WholeConfig {
		cfg := po.DefaultMsgcatMergeConfig()
		cfg.UseFirst = c.UseFirst
		if c.HasL {
			cfg.LessThan = c.Less
		}
		if c.HasM {
			cfg.MoreThan = c.More
		}
		return po.MsgcatMergeFiles(files, po.MsgcatMergeWithConfig(cfg))
	}
	if c.HasL {
		opts = append(opts, po.MsgcatMergeWithLessThan(c.Less))
	}
	if c.HasM {
		opts = append(opts, po.MsgcatMergeWithMoreThan(c.More))
	}
	if c.UseFirst {
		opts = append(opts, po.MsgcatMergeWithUseFirst(true))
	}
	return po.MsgcatMergeFiles(files, opts...)
}

type definition struct {
	file  string
	entry po.Entry
}

// catView is a concatenation: the definitions of each message in order, and the result.
type catView struct {
	order []string
	defs  map[string][]definition
	out   po.Entries
	res   map[string]po.Entry
}

// defsOf collects the definitions of each message.
func (c catCase) defsOf() *catView {
	v := &catView{defs: map[string][]definition{}}
	for _, f := range c.Files {
		for _, e := range f.Entries {
			if len(v.defs[uid(e)]) == 0 {
				v.order = append(v.order, uid(e))
			}
			v.defs[uid(e)] = append(v.defs[uid(e)], definition{f.Name, e})
		}
	}
	return v
}

func (v *catView) setOut(es po.Entries) {
	v.out = es
	v.res = index(v.out, func(po.Entry) bool { return true })
}

func viewCat(c catCase, x *Ctx) (*catView, error) {
	v := c.defsOf()
	var files []*po.File
	var checks []func() error
	for _, f := range c.Files {
		es, same := guarded(f.Entries)
		files = append(files, &po.File{Name: f.Name, Entries: es})
		checks = append(checks, same)
	}
	v.setOut(c.run(files))
	for i, same := range checks {
		if err := same(); err != nil {
			return v, fmt.Errorf("input %d was modified: %v", i, err)
		}
	}
	if err := diffEntries(c.run(files), v.out); err != nil {
		return v, fmt.Errorf("concatenating again gives another result: %v", err)
	}
	most := 0
	for _, d := range v.defs {
		if len(d) > most {
			most = len(d)
		}
	}
	x.NonTrivial(most >= 2)
	x.Label("three or more definitions", most >= 3)
	return v, nil
}

func checkP19(c catCase, x *Ctx) error {
	v, err := viewCat(c, x)
	if err != nil {
		return err
	}
	return v.judge19(c, v.order, x)
}

// judge19 judges the messages with the ids of want.
func (v *catView) judge19(c catCase, want []string, x *Ctx) error {
	if got := uids(v.out); js(got) != js(want) {
		return fmt.Errorf("messages %q, want %q", got, want)
	}
	for _, k := range want {
		ds, e := v.defs[k], v.res[k]
		agree, active := true, false
		for _, d := range ds {
			agree = agree && sameEntry(d.entry, ds[0].entry)
			active = active || !d.entry.Obsolete
		}
		x.Label("agreement of several", agree && len(ds) > 1)
		if agree && !sameEntry(onceLocated(e), onceLocated(ds[0].entry)) {
			return fmt.Errorf("all inputs agree on %s, but it came out as %s", showEntry(ds[0].entry), showEntry(e))
		}
		if c.UseFirst {
			want := ds[0]
			for _, d := range ds {
				if hasTranslation(d.entry) {
					want = d
					break
				}
			}
			if !sameEntry(e, want.entry) {
				return fmt.Errorf("with use-first, %s came out as %s", showEntry(want.entry), showEntry(e))
			}
			continue
		}
		if e.Obsolete == active {
			return fmt.Errorf("%s: obsolete %v although active in an input: %v", showEntry(e), e.Obsolete, active)
		}
		for _, d := range ds {
			for _, l := range d.entry.Locations {
				if !hasLocation(e, l) {
					return fmt.Errorf("reference %v of %s is lost: %s", l, showEntry(d.entry), showEntry(e))
				}
			}
		}
		for _, l := range e.Locations {
			found := false
			for _, d := range ds {
				found = found || hasLocation(d.entry, l)
			}
			if !found {
				return fmt.Errorf("%s has the reference %v of no input", showEntry(e), l)
			}
		}
	}
	return nil
}

// onceLocated is e with every reference once: repeating one is not an information.
func onceLocated(e po.Entry) po.Entry {
	var ls po.Locations
	for _, l := range e.Locations {
		if !hasLocation(po.Entry{Locations: ls}, l) {
			ls = append(ls, l)
		}
	}
	e.Locations = ls
	return e
}

func hasLocation(e po.Entry, l po.Location) bool {
	for _, m := range e.Locations {
		if l == m {
			return true
		}
	}
	return false
}

func checkP20(c catCase, x *Ctx) error {
	v, err := viewCat(c, x)
	if err != nil {
		return err
	}
	want, removed := v.selected(c)
	x.Label("some kept, some removed", removed > 0 && len(want) > 0)
	if got := uids(v.out); js(got) != js(want) {
		return fmt.Errorf("less than %d (%v), more than %d (%v): messages %q, want %q", c.Less, c.HasL, c.More, c.HasM, got, want)
	}
	// The bounds select messages, they do not alter them.
	plain := c
	plain.HasL, plain.HasM = false, false
	all, err := viewCat(plain, x)
	if err != nil {
		return err
	}
	for k, e := range v.res {
		if !sameEntry(e, all.res[k]) {
			return fmt.Errorf("message differs with bounds: %s, %s", showEntry(e), showEntry(all.res[k]))
		}
	}
	return nil
}

// selected are the ids of the messages within the bounds.
func (v *catView) selected(c catCase) (want []string, removed int) {
	less, more := uint(math.MaxUint), uint(0)
	if c.HasL {
		less = c.Less
	}
	if c.HasM {
		more = c.More
	}
	for _, k := range v.order {
		n := uint(len(v.defs[k]))
		if isHeader(v.defs[k][0].entry) || (n < less && n > more) {
			want = append(want, k)
		} else {
			removed++
		}
	}
	return want, removed
}

func marker(file string) string { return "#-#-#-#-#  " + file + "  #-#-#-#-#" }

func checkP21(c catCase, x *Ctx) error {
	v, err := viewCat(c, x)
	if err != nil {
		return err
	}
	return v.judge21(v.order, x)
}

func (v *catView) judge21(want []string, x *Ctx) error {
	for _, k := range want {
		ds, e := v.defs[k], v.res[k]
		var tr []definition // the translated definitions
		fuzzyInput, samePlural := false, true
		nforms := 0
		for _, d := range ds {
			if hasTranslation(d.entry) {
				tr = append(tr, d)
				samePlural = samePlural && d.entry.Plural == tr[0].entry.Plural
			}
			fuzzyInput = fuzzyInput || isFuzzy(d.entry)
			if n := len(translations(d.entry)); n > nforms {
				nforms = n
			}
			for _, f := range d.entry.Flags {
				if !contains(e.Flags, f) {
					return fmt.Errorf("flag %q of %s is lost: %s", f, showEntry(d.entry), showEntry(e))
				}
			}
			if err := survive("comments", d, e, d.entry.Comments, e.Comments); err != nil {
				return err
			}
			if err := survive("extracted comments", d, e, d.entry.ExtractedComments, e.ExtractedComments); err != nil {
				return err
			}
		}
		for _, f := range e.Flags {
			known := f == "fuzzy"
			for _, d := range ds {
				known = known || contains(d.entry.Flags, f)
			}
			if !known {
				return fmt.Errorf("%s has the flag %q of no input", showEntry(e), f)
			}
		}
		conflict, equal := false, samePlural
		out := translations(e)
		for i := 0; i < nforms; i++ {
			var variants []definition
			values := map[string]bool{}
			for _, d := range tr {
				f := translations(d.entry)
				if i < len(f) && f[i] != "" {
					variants = append(variants, d)
					values[f[i]] = true
				}
				equal = equal && js(f) == js(translations(tr[0].entry))
			}
			text := ""
			if i < len(out) {
				text = out[i]
			}
			switch len(values) {
			case 0:
				if text != "" {
					return fmt.Errorf("form %d of %s appeared", i, showEntry(e))
				}
			case 1:
				if want := translations(variants[0].entry)[i]; text != want {
					return fmt.Errorf("form %d is %q in every input that has it, but came out as %q: %s", i, want, text, showEntry(e))
				}
			default:
				conflict = true
				rest := text
				for _, d := range variants {
					block := marker(d.file) + "\n" + translations(d.entry)[i]
					p := strings.Index(rest, block)
					if p < 0 {
						return fmt.Errorf("form %d lacks %q, or has it out of order: %q", i, block, text)
					}
					if p > 0 && rest[p-1] != '\n' {
						return fmt.Errorf("form %d: the marker of %s does not start a line: %q", i, d.file, text)
					}
					rest = rest[p+len(block):]
				}
				// Nothing but the variants under their markers.
				n := len(text)
				for _, d := range variants {
					n -= len(marker(d.file)) + 1 + len(translations(d.entry)[i]) + 1
				}
				if n > 0 {
					return fmt.Errorf("form %d holds more than the variants: %q", i, text)
				}
			}
		}
		x.Label("conflict", conflict)
		x.Label("conflict of three", conflict && len(tr) >= 3)
		x.Label("untranslated and translated", len(tr) == 1 && len(ds) > 1)
		if conflict && !isFuzzy(e) {
			return fmt.Errorf("inputs conflict but the message is not fuzzy: %s", showEntry(e))
		}
		if equal && isFuzzy(e) && !fuzzyInput {
			return fmt.Errorf("inputs do not conflict but the message is fuzzy: %s", showEntry(e))
		}
	}
	return nil
}

// survive checks that the lines of one input are all there, in order.
func survive(what string, d definition, e po.Entry, lines, out []string) error {
	i := 0
	for _, l := range out {
		if i < len(lines) && lines[i] == l {
			i++
		}
	}
	if i < len(lines) {
		return fmt.Errorf("%s: %q of %s is lost: %s", what, lines[i], showEntry(d.entry), showEntry(e))
	}
	return nil
}

func init() {
	rule := "0-5 files over a common set of messages with equal, untranslated, conflicting, plural/singular and obsolete versions and differing comments, flags and references; non-trivial: a message has two or more definitions"
	register("P19", 80000, 1600000, rule, func(t *rapid.T) catCase {
		c := drawCat(t)
		c.UseFirst, c.WholeConfig = chance(t, "usefirst", 35), rapid.Bool().Draw(t, "whole")
		return c
	}, checkP19)
	register("P20", 80000, 1600000, rule, func(t *rapid.T) catCase {
		c := drawCat(t)
		drawBounds(t, &c)
		c.UseFirst, c.WholeConfig = chance(t, "usefirst", 20), rapid.Bool().Draw(t, "whole")
		return c
	}, checkP20)
	register("P21", 80000, 1600000, rule, drawCat, checkP21)
}
