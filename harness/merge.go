package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"pgregory.net/rapid"
)

// --- P15-P18, P49: merging a catalog with a template ---------------------------

type mergeCase struct {
	Def, Ref                  po.Entries
	Fuzzy, KeepPrevious, Sort bool
	Mode                      po.SortMode
	Defaults                  bool // leave the options at their defaults
	Entry                     string
}

// asTemplate turns an old message into what a new template says about it.
func asTemplate(t *rapid.T, e po.Entry) po.Entry {
	r := po.Entry{ID: e.ID, Context: e.Context, Plural: e.Plural}
	r.ExtractedComments = texts(t, "newextracted", 2, line)
	r.Comments = texts(t, "newcomment", 1, line)
	if chance(t, "newflag", 20) {
		r.Flags = []string{oneOf(t, "newflagv", "go-format", "c-format")}
	}
	if chance(t, "newlocs", 60) {
		for i := intn(t, "nnew", 1, 2); i > 0; i-- {
			r.Locations = append(r.Locations, location(t, "newloc", false))
		}
	}
	if r.Plural != "" && chance(t, "emptyforms", 40) {
		r.Plurals = po.PluralEntries{{ID: 0}, {ID: 1}}
	}
	return r
}

func drawMerge(t *rapid.T) mergeCase {
	c := mergeCase{Entry: oneOf(t, "entrypoint", "Merge", "MergeWithConfig", "MergeWithMergeConfig")}
	o := entryOpts{meta: true, obsolete: true, fuzzy: true, untrans: true, plural: true, context: true, bareplural: true, plainIDs: chance(t, "plain", 60)}
	c.Def = entries(t, o, 0, 7)
	if chance(t, "many", 8) {
		c.Def = append(c.Def, entries(t, entryOpts{fuzzy: true, obsolete: true, meta: true}, 10, 20)...)
		c.Def = dedupe(c.Def)
	}
	for _, e := range c.Def {
		switch k := intn(t, "fate", 0, 9); {
		case k <= 4: // survives
			r := asTemplate(t, e)
			if chance(t, "kind", 10) {
				if r.Plural == "" {
					r.Plural = "kinds"
				} else {
					r.Plural, r.Plurals = oneOf(t, "newplural", "", "otherplural"), nil
				}
			}
			if chance(t, "translated", 10) {
				if r.Plural == "" {
					r.Str = "from the template"
				} else {
					r.Plurals = po.PluralEntries{{ID: 0, Str: "tpl0"}, {ID: 1, Str: "tpl1"}}
				}
			}
			if chance(t, "refobsolete", 5) {
				r.Obsolete = true
			}
			c.Ref = append(c.Ref, r)
		case k <= 6: // changes its id a little
			r := asTemplate(t, e)
			r.ID += oneOf(t, "suffix", "s", " now", "!", "\n", " and something rather different")
			if chance(t, "moved", 10) {
				r.Context = oneOf(t, "newctx", "", "menu", "other")
			}
			c.Ref = append(c.Ref, r)
		}
	}
	for i := intn(t, "nadded", 0, 3); i > 0; i-- {
		e := genEntry(t, o)
		r := asTemplate(t, e)
		if chance(t, "addedtranslated", 15) {
			r.Str, r.Plurals, r.Obsolete = e.Str, e.Plurals, false
		}
		c.Ref = append(c.Ref, r)
	}
	c.Ref = dedupe(c.Ref)
	if len(c.Ref) > 0 && chance(t, "refdup", 6) { // the first of repeated template messages counts
		r := asTemplate(t, oneOf(t, "refdupof", c.Ref...))
		c.Ref = append(c.Ref, r)
	} else if len(c.Ref) > 1 && chance(t, "rotate", 50) {
		k := intn(t, "by", 1, len(c.Ref)-1)
		c.Ref = append(append(po.Entries{}, c.Ref[k:]...), c.Ref[:k]...)
	}
	if k := intn(t, "sorted", 0, 999); k%7 == 3 { // catalogs in an order of the library
		cmp := oneOf(t, "order", po.CompareEntry, po.CompareEntryByID, po.CompareEntryByFile, po.CompareEntryByStr)
		c.Def, c.Ref = c.Def.SortFunc(cmp), c.Ref.SortFunc(cmp)
	}
	if chance(t, "longids", 5) { // so much in common that similar ids differ by less than one percent
		long := strings.Repeat("This is a rather long message, of many words. ", intn(t, "words", 5, 8))
		for _, es := range []po.Entries{c.Def, c.Ref} {
			for i := range es {
				es[i].ID = long + es[i].ID
			}
		}
	}
	if i := intn(t, "twiceof", 0, 6); i < len(c.Def) && hasTranslation(c.Def[i]) && chance(t, "twice", 8) { // one of the two is translated
		d := clone(c.Def[i : i+1])[0]
		d.Str, d.Plurals = "", nil
		at := intn(t, "twiceat", 0, len(c.Def))
		c.Def = append(append(append(po.Entries{}, c.Def[:at]...), d), c.Def[at:]...)
	}
	if chance(t, "defheader", 60) {
		h := header()
		h.Str = oneOf(t, "plforms", headerText, "Language: pl\nPlural-Forms: nplurals=3; plural=n;\n", "Language: x\n", "Plural-Forms: nplurals=999999999999; plural=0;\n", formsHeader(t))
		h.Comments = texts(t, "headercomment", 2, line)
		at := 0
		if chance(t, "headerlater", 15) {
			at = intn(t, "headerat", 0, len(c.Def))
		}
		c.Def = append(append(append(po.Entries{}, c.Def[:at]...), h), c.Def[at:]...)
	}
	if chance(t, "refheader", 60) {
		h := po.Entry{Str: "Project-Id-Version: new\nPOT-Creation-Date: 2024-01-01 00:00+0000\n"}
		if chance(t, "refforms", 40) {
			h.Str += formsHeader(t)
		}
		at := 0
		if chance(t, "refheaderlater", 15) {
			at = intn(t, "refheaderat", 0, len(c.Ref))
		}
		c.Ref = append(append(append(po.Entries{}, c.Ref[:at]...), h), c.Ref[at:]...)
	}
	if c.Defaults = chance(t, "defaults", 20); c.Defaults {
		c.Fuzzy, c.Sort, c.Mode, c.Entry = true, true, po.SortByAll, "Merge"
		return c
	}
	c.Fuzzy, c.KeepPrevious, c.Sort = rapid.Bool().Draw(t, "fuzzy"), chance(t, "keep", 30), chance(t, "sort", 60)
	c.Mode = oneOf(t, "mode", po.SortByAll, po.SortByID, po.SortByFile, po.SortByLine, po.SortByFuzzy, po.SortByObsolete)
	return c
}

// formsHeader states a number of plural forms.
func formsHeader(t *rapid.T) string {
	return fmt.Sprintf("Plural-Forms: nplurals=%d; plural=0;\n", intn(t, "forms", 1, 9))
}

// forms is the number of plural forms of the merged catalog, 0 if it is unreasonable.
func (v *mergeView) forms() int {
	for _, e := range v.out {
		if isHeader(e) {
			for _, f := range modelHeader(e.Str) {
				if n, ok := strings.CutPrefix(f.Value, "nplurals="); ok && f.Key == "Plural-Forms" {
					n, _, _ = strings.Cut(n, ";")
					if n, _ := strconv.Atoi(n); n <= 100 {
						return n
					}
					return 0
				}
			}
		}
	}
	return 2
}

// dedupe keeps the first message of each context and id, and no header.
func dedupe(es po.Entries) po.Entries {
	var r po.Entries
	seen := map[string]bool{uid(po.Entry{}): true}
	for _, e := range es {
		if !seen[uid(e)] {
			seen[uid(e)] = true
			r = append(r, e)
		}
	}
	return r
}

func (c mergeCase) run(def, ref po.Entries) po.Entries {
	cfg := po.MergeConfig{FuzzyMatch: c.Fuzzy, KeepPreviousIDs: c.KeepPrevious, Sort: c.Sort, SortMode: c.Mode}
	switch {
	case c.Defaults:
		return po.Merge(def, ref)
	case c.Entry == "MergeWithConfig":
		return po.MergeWithConfig(cfg, def, ref)
	case c.Entry == "MergeWithMergeConfig":
		return po.Merge(def, ref, po.MergeWithMergeConfig(cfg))
	}
	return po.Merge(def, ref, po.MergeWithFuzzyMatch(c.Fuzzy), po.MergeWithKeepPreviousIDs(c.KeepPrevious), po.MergeWithSort(c.Sort), po.MergeWithSortMode(c.Mode))
}

// mergeView is a merge and its result, indexed.
type mergeView struct {
	c             mergeCase
	out           po.Entries
	def, ref, res map[string]po.Entry
}

func isHeader(e po.Entry) bool { return e.ID == "" && e.Context == "" }

func index(es po.Entries, f func(po.Entry) bool) map[string]po.Entry {
	m := map[string]po.Entry{}
	for _, e := range es {
		if _, ok := m[uid(e)]; !ok && f(e) {
			m[uid(e)] = e
		}
	}
	return m
}

func viewMerge(c mergeCase, x *Ctx) *mergeView {
	return viewMerged(c, c.run(clone(c.Def), clone(c.Ref)), x)
}

func viewMerged(c mergeCase, out po.Entries, x *Ctx) *mergeView {
	v := &mergeView{c: c, out: out}
	message := func(e po.Entry) bool { return !isHeader(e) }
	v.def = index(c.Def, func(e po.Entry) bool { return message(e) && hasTranslation(e) })
	for k, e := range index(c.Def, message) {
		if _, ok := v.def[k]; !ok {
			v.def[k] = e
		}
	}
	v.ref = index(c.Ref, func(e po.Entry) bool { return !isHeader(e) && !e.Obsolete })
	v.res = index(v.out, message)
	shared, dropped, added := 0, 0, 0
	for k := range v.def {
		if _, ok := v.ref[k]; ok {
			shared++
		} else {
			dropped++
		}
	}
	added = len(v.ref) - shared
	x.NonTrivial(shared > 0 && dropped+added > 0)
	x.Label("shared and dropped and added", shared > 0 && dropped > 0 && added > 0)
	x.Label("fuzzy matching", c.Fuzzy)
	handed := 0
	for k := range v.def {
		if _, ok := v.res[k]; !ok {
			handed++
		}
	}
	x.Label("a translation was handed over", handed > 0)
	x.Label("more than 12 messages", len(v.out) > 12)
	return v
}

// translations are the forms of a message.
func translations(e po.Entry) []string {
	if e.Plural == "" && len(e.Plurals) == 0 {
		return []string{e.Str}
	}
	var r []string
	for _, p := range e.Plurals {
		r = append(r, p.Str)
	}
	return r
}

func hasTranslation(e po.Entry) bool {
	for _, s := range translations(e) {
		if s != "" {
			return true
		}
	}
	return false
}

// derived tells whether the translation of a message can be that of an old one,
// adapted to whether it has plural forms.
func (v *mergeView) derived(e, old po.Entry) bool {
	a, b := translations(e), translations(old)
	if n := v.forms(); e.Plural != "" && old.Plural == "" && n != 0 && n != len(a) {
		return false // It has all the forms that the header announces.
	}
	if e.Plural == "" || old.Plural == "" { // The first form stands for all.
		for _, s := range a {
			if len(b) == 0 || s != b[0] {
				return false
			}
		}
		return len(a) > 0
	}
	return js(a) == js(b)
}

func checkP15(c mergeCase, x *Ctx) error { return viewMerge(c, x).judge15(x) }

func (v *mergeView) judge15(x *Ctx) error {
	c := v.c
	seen := map[string]bool{}
	for _, e := range v.out {
		if seen[uid(e)] {
			return fmt.Errorf("%s occurs twice", showEntry(e))
		}
		seen[uid(e)] = true
		_, inDef := v.def[uid(e)]
		r, inRef := v.ref[uid(e)]
		switch {
		case isHeader(e):
			if !has(c.Def, isHeader) && !has(c.Ref, isHeader) {
				return fmt.Errorf("a header appeared: %s", showEntry(e))
			}
		case inRef:
			if e.Obsolete {
				return fmt.Errorf("template message is obsolete: %s", showEntry(e))
			}
			if e.Plural != r.Plural {
				return fmt.Errorf("template message %s came out as %s", showEntry(r), showEntry(e))
			}
		case inDef:
			if !e.Obsolete && (!isFuzzy(e) || !c.KeepPrevious || c.Fuzzy) {
				return fmt.Errorf("the message that the template dropped is neither obsolete nor, when previous ids are kept, fuzzy: %s", showEntry(e))
			}
		default:
			return fmt.Errorf("%s is in neither catalog", showEntry(e))
		}
	}
	for k, r := range v.ref {
		if !seen[k] {
			return fmt.Errorf("template message %s is missing", showEntry(r))
		}
	}
	if has(c.Def, isHeader) && !seen[uid(po.Entry{})] {
		return fmt.Errorf("the header is missing")
	}
	if has(c.Ref, isHeader) && !seen[uid(po.Entry{})] {
		return fmt.Errorf("the header of the template is missing")
	}
	for k, d := range v.def {
		e, ok := v.res[k]
		if _, inRef := v.ref[k]; inRef {
			continue
		}
		if ok {
			if d.Str != e.Str || js(d.Plurals) != js(e.Plurals) || js(d.Comments) != js(e.Comments) {
				return fmt.Errorf("dropped message %s came out as %s", showEntry(d), showEntry(e))
			}
			continue
		}
		if !c.Fuzzy {
			return fmt.Errorf("dropped message %s is missing", showEntry(d))
		}
		heir := false
		for k2, e := range v.res {
			_, old := v.def[k2]
			heir = heir || (!old && !e.Obsolete && isFuzzy(e) && v.derived(e, d))
		}
		if !heir || !hasTranslation(d) {
			return fmt.Errorf("dropped message %s is missing and no new message has its translation", showEntry(d))
		}
	}
	return nil
}

func checkP16(c mergeCase, x *Ctx) error { return viewMerge(c, x).judge16(x) }

func (v *mergeView) judge16(x *Ctx) error {
	c := v.c
	for k, d := range v.def {
		r, ok := v.ref[k]
		e, out := v.res[k]
		if !ok || !out {
			continue
		}
		if js(d.Comments) != js(e.Comments) {
			return fmt.Errorf("comments of %s changed: %s", showEntry(d), showEntry(e))
		}
		for _, f := range d.Flags {
			if f == "fuzzy" && !isFuzzy(e) {
				return fmt.Errorf("%s is not fuzzy any more", showEntry(d))
			}
		}
		if d.Plural != r.Plural {
			x.Label("plural id changed", true)
			if !v.derived(e, d) && hasTranslation(d) {
				return fmt.Errorf("the translation of %s is lost: %s", showEntry(d), showEntry(e))
			}
			if !hasTranslation(d) && isFuzzy(e) && !isFuzzy(d) {
				return fmt.Errorf("%s became fuzzy without a translation: %s", showEntry(d), showEntry(e))
			}
			if hasTranslation(d) && !isFuzzy(e) {
				return fmt.Errorf("the plural id of %s changed to %q but it is not fuzzy", showEntry(d), r.Plural)
			}
			continue
		}
		if d.Str != e.Str || js(canon(d).Plurals) != js(canon(e).Plurals) {
			return fmt.Errorf("the translation of %s changed: %s", showEntry(d), showEntry(e))
		}
		if isFuzzy(d) != isFuzzy(e) {
			return fmt.Errorf("%s became fuzzy: %s", showEntry(d), showEntry(e))
		}
	}
	for _, d := range c.Def {
		if isHeader(d) {
			x.Label("header", true)
			if i := v.out.Index("", ""); i < 0 || !sameEntry(v.out[i], d) {
				return fmt.Errorf("the header changed")
			}
		}
	}
	return nil
}

func checkP17(c mergeCase, x *Ctx) error { return viewMerge(c, x).judge17(x) }

func (v *mergeView) judge17(x *Ctx) error {
	c := v.c
	guessed := 0
	for k, r := range v.ref {
		e, out := v.res[k]
		if _, old := v.def[k]; old || !out {
			continue
		}
		// Plural messages may come with empty forms.
		same := hasTranslation(r) && js(translations(e)) == js(translations(r)) || !hasTranslation(r) && !hasTranslation(e)
		if same && isFuzzy(e) == isFuzzy(r) {
			if a, b := canon(e), canon(r); js(a.Comments) != js(b.Comments) || js(a.Flags) != js(b.Flags) || js(a.Locations) != js(b.Locations) || js(a.ExtractedComments) != js(b.ExtractedComments) {
				return fmt.Errorf("new message %s came out as %s", showEntry(r), showEntry(e))
			}
			continue
		}
		guessed++
		if !c.Fuzzy {
			return fmt.Errorf("without fuzzy matching, new message %s came out as %s", showEntry(r), showEntry(e))
		}
		if !isFuzzy(e) {
			return fmt.Errorf("new message %s got a translation but is not fuzzy: %s", showEntry(r), showEntry(e))
		}
		source := false
		for _, d := range v.def {
			source = source || (hasTranslation(d) && v.derived(e, d) && po.EntryIDMatchRatio(d, r) >= 50)
		}
		if !source {
			return fmt.Errorf("new message %s came out as %s, but no similar old message has this translation", showEntry(r), showEntry(e))
		}
	}
	x.Label("guessed translation", guessed > 0)
	return nil
}

func checkP18(c mergeCase, x *Ctx) error {
	v := viewMerge(c, x)
	def, same1 := guarded(c.Def)
	ref, same2 := guarded(c.Ref)
	for i := 0; i < 2; i++ {
		got := c.run(def, ref)
		if err := same1(); err != nil {
			return fmt.Errorf("the old catalog was modified: %v", err)
		}
		if err := same2(); err != nil {
			return fmt.Errorf("the template was modified: %v", err)
		}
		if err := diffEntries(got, v.out); err != nil {
			return fmt.Errorf("merging again gives another result: %v", err)
		}
		if i == 1 { // The result belongs to the caller.
			again := c.run(clone(v.out), ref)
			if err := diffEntries(again, v.out); err != nil {
				return fmt.Errorf("merging the result with the same template changes it: %v", err)
			}
		}
	}
	if c.Sort {
		o := entryOrders[modes[c.Mode]]
		for i := 1; i < len(v.out); i++ {
			if o.want(v.out[i-1], v.out[i]) > 0 {
				return fmt.Errorf("not in the requested order at %d: %s, %s", i, showEntry(v.out[i-1]), showEntry(v.out[i]))
			}
		}
		return nil
	}
	at := map[string]int{}
	for i, e := range append(clone(c.Def), c.Ref...) {
		if k := uid(e); i < len(c.Def) || !e.Obsolete {
			if _, ok := at[k]; !ok {
				at[k] = i
			}
		}
	}
	for i := 1; i < len(v.out); i++ {
		if at[uid(v.out[i-1])] >= at[uid(v.out[i])] {
			return fmt.Errorf("not in the order of the old catalog and the template at %d: %s, %s", i, showEntry(v.out[i-1]), showEntry(v.out[i]))
		}
	}
	return nil
}

func checkP49(c mergeCase, x *Ctx) error { return viewMerge(c, x).judge49(x) }

func (v *mergeView) judge49(x *Ctx) error {
	changed := false
	for k, r := range v.ref {
		e, ok := v.res[k]
		if !ok {
			continue
		}
		d := v.def[k]
		changed = changed || js(canon(d).Locations) != js(canon(r).Locations)
		if a, b := canon(e), canon(r); js(a.Locations) != js(b.Locations) || js(a.ExtractedComments) != js(b.ExtractedComments) {
			return fmt.Errorf("%s does not have the references and extracted comments of the template: %s", showEntry(e), showEntry(r))
		}
	}
	x.Label("references changed", changed)
	return nil
}

func init() {
	rule := "a catalog of 0-28 messages and a template that keeps, changes, drops and adds messages (kinds, contexts, headers, obsolete and fuzzy ones), all merge options; non-trivial: some message is in both and some is dropped or added"
	register("P15", 80000, 1600000, rule, drawMerge, checkP15)
	register("P16", 80000, 1600000, rule, drawMerge, checkP16)
	register("P17", 80000, 1600000, rule, drawMerge, checkP17)
	register("P18", 60000, 1200000, rule, drawMerge, checkP18)
	register("P49", 80000, 1600000, rule, drawMerge, checkP49)
}
