package main

import (
	"errors"
	"fmt"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"pgregory.net/rapid"
)

// --- P28: orders -------------------------------------------------------------

// pool draws messages that often agree in some of their fields.
func pool(t *rapid.T, min, max int) po.Entries {
	var es po.Entries
	for i := intn(t, "npool", min, max); i > 0; i-- {
		e := po.Entry{ID: oneOf(t, "id", "", "a", "a", "b", "ab", "Z", "é", "\x01", "aq", "ba", "cQ"), Obsolete: chance(t, "obsolete", 30)}
		if chance(t, "free", 15) {
			e.ID = text(t, "freeid")
		}
		if chance(t, "hasctx", 30) {
			e.Context = oneOf(t, "ctx", "a", "c", "menu")
		}
		if chance(t, "isfuzzy", 30) {
			e.Flags = []string{"fuzzy"}
		}
		if chance(t, "flag", 20) {
			e.Flags = append(e.Flags, oneOf(t, "f", "c-format", "go-format"))
		}
		e.Str = oneOf(t, "str", "", "a", "b", "c", "aa")
		if chance(t, "plural", 40) {
			e.Plural, e.Str = oneOf(t, "pl", "as", "bs"), ""
			for j := intn(t, "nforms", 0, 3); j > 0; j-- {
				e.Plurals = append(e.Plurals, po.PluralEntry{ID: len(e.Plurals), Str: oneOf(t, "form", "", "a", "b", "c", "aa")})
			}
		}
		for j := intn(t, "nlocs", 0, 2); j > 0; j-- {
			e.Locations = append(e.Locations, poolLocation(t))
		}
		es = append(es, e)
	}
	if k := intn(t, "prefix", 0, 999); k%41 == 20 && len(es) > 0 { // ids that differ only far behind
		p := strings.Repeat(oneOf(t, "prefixunit", "long ", "é", "0123456789"), oneOf(t, "prefixsize", 2, 13, 60))
		for i := range es {
			if es[i].ID != "" {
				es[i].ID = p + es[i].ID
			}
			if es[i].Context != "" {
				es[i].Context = p + es[i].Context
			}
		}
	}
	if k := intn(t, "sorted", 0, 999); k%7 == 3 { // in an order of the library
		es = es.SortFunc(oneOf(t, "order", po.CompareEntry, po.CompareEntryByID, po.CompareEntryByFile, po.CompareEntryByStr))
	}
	return es
}

// throng adds many messages, some of them repeated.
func throng(t *rapid.T, es po.Entries) po.Entries {
	if intn(t, "crowd", 0, 999)%173 != 86 {
		return es
	}
	step := oneOf(t, "crowdstep", 7, 11, 13)
	n := oneOf(t, "crowdsize", 60, 130, 300)
	distinct := oneOf(t, "distinct", n-n/5, n-n/5, n, n-1) // n-1: only the last is a repetition
	for i := 0; i < n; i++ {
		e := po.Entry{ID: fmt.Sprint("crowd ", i*step%distinct), Str: fmt.Sprint("form ", i%3), Locations: po.Locations{{File: fmt.Sprintf("f%d.go", i%5), Line: (n - i) % 50}}}
		e.Obsolete = i%17 == 3
		es = append(es, e)
	}
	return es
}

const (
	maxInt = int(^uint(0) >> 1)
	minInt = -maxInt - 1
)

func poolLocation(t *rapid.T) po.Location {
	l := po.Location{File: oneOf(t, "file", "a.go", "./a.go", "b.go", "a/../b.go", "A.go", "", ".", "dir/a.go", "dir//a.go"), Line: oneOf(t, "line", -1, 0, 1, 2, 10, 100)}
	if chance(t, "extreme", 6) {
		l.Line = oneOf(t, "xline", maxInt, minInt, maxInt-1)
	}
	return l
}

func cmpInt(a, b int) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func cmpBool(a, b bool) int {
	switch {
	case a == b:
		return 0
	case b:
		return -1
	}
	return 1
}

func cmpList[T any](a, b []T, f func(a, b T) int) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if c := f(a[i], b[i]); c != 0 {
			return c
		}
	}
	return cmpInt(len(a), len(b))
}

func cmpFile(a, b po.Location) int {
	return strings.Compare(filepath.Clean(a.File), filepath.Clean(b.File))
}
func cmpLine(a, b po.Location) int { return cmpInt(a.Line, b.Line) }
func cmpLoc(a, b po.Location) int  { return first(cmpFile(a, b), cmpLine(a, b)) }

func first(cs ...int) int {
	for _, c := range cs {
		if c != 0 {
			return c
		}
	}
	return 0
}

func keyOf(e po.Entry) string {
	if e.Context == "" {
		return e.ID
	}
	return e.Context + "\x04" + e.ID
}

// keyed is one offered order with the documented key, if it is documented exactly.
type keyed[T any] struct {
	name string
	cmp  func(a, b T) int
	want func(a, b T) int
}

var entryOrders = []keyed[po.Entry]{
	{"CompareEntryByObsolete", po.CompareEntryByObsolete, func(a, b po.Entry) int { return cmpBool(a.Obsolete, b.Obsolete) }},
	{"CompareEntryByFuzzy", po.CompareEntryByFuzzy, func(a, b po.Entry) int { return cmpBool(isFuzzy(a), isFuzzy(b)) }},
	{"CompareEntryByLocation", po.CompareEntryByLocation, func(a, b po.Entry) int { return cmpList(a.Locations, b.Locations, cmpLoc) }},
	{"CompareEntryByFile", po.CompareEntryByFile, func(a, b po.Entry) int { return cmpList(a.Locations, b.Locations, cmpFile) }},
	{"CompareEntryByLine", po.CompareEntryByLine, func(a, b po.Entry) int { return cmpList(a.Locations, b.Locations, cmpLine) }},
	{"CompareEntryByID", po.CompareEntryByID, func(a, b po.Entry) int { return strings.Compare(keyOf(a), keyOf(b)) }},
	{"CompareEntry", po.CompareEntry, func(a, b po.Entry) int {
		return first(cmpBool(a.Obsolete, b.Obsolete), cmpBool(isFuzzy(a), isFuzzy(b)), cmpList(a.Locations, b.Locations, cmpLoc), strings.Compare(keyOf(a), keyOf(b)))
	}},
	{"CompareEntryByStr", po.CompareEntryByStr, nil},
}

var modes = map[po.SortMode]int{po.SortByAll: 6, po.SortByID: 5, po.SortByFile: 3, po.SortByLine: 4, po.SortByFuzzy: 1, po.SortByObsolete: 0, po.SortMode(99): 6}

var locOrders = []keyed[po.Location]{
	{"CompareLocation", po.CompareLocation, cmpLoc}, {"CompareLocationByFile", po.CompareLocationByFile, cmpFile}, {"CompareLocationByLine", po.CompareLocationByLine, cmpLine},
}

var formOrders = []keyed[po.PluralEntry]{
	{"ComparePluralEntry", po.ComparePluralEntry, func(a, b po.PluralEntry) int { return first(cmpInt(a.ID, b.ID), strings.Compare(a.Str, b.Str)) }},
	{"ComparePluralEntryByID", po.ComparePluralEntryByID, func(a, b po.PluralEntry) int { return cmpInt(a.ID, b.ID) }},
	{"ComparePluralEntryByStr", po.ComparePluralEntryByStr, func(a, b po.PluralEntry) int { return strings.Compare(a.Str, b.Str) }},
}

func sign(n int) int { return cmpInt(n, 0) }

// checkOrder judges a comparison on all triples of a list.
func checkOrder[T any](o keyed[T], xs []T) error {
	if len(xs) > 8 {
		xs = xs[:8]
	}
	for _, a := range xs {
		if o.cmp(a, a) != 0 {
			return fmt.Errorf("%s of %v with itself is %d", o.name, a, o.cmp(a, a))
		}
		for _, b := range xs {
			ab := sign(o.cmp(a, b))
			if ab != -sign(o.cmp(b, a)) {
				return fmt.Errorf("%s is not antisymmetric: %v and %v", o.name, a, b)
			}
			if o.want != nil && ab != o.want(a, b) {
				return fmt.Errorf("%s is %d, by its key %d: %v and %v", o.name, ab, o.want(a, b), a, b)
			}
			for _, c := range xs {
				if ab <= 0 && sign(o.cmp(b, c)) <= 0 && (sign(o.cmp(a, c)) > 0 || (ab < 0 && sign(o.cmp(a, c)) >= 0)) {
					return fmt.Errorf("%s is not transitive: %v, %v, %v", o.name, a, b, c)
				}
			}
		}
	}
	return nil
}

// checkSorted judges the result of sorting.
func checkSorted[T any](name string, got, from []T, cmp func(a, b T) int, isSorted bool) error {
	show := func(xs []T) []string {
		var r []string
		for _, x := range xs {
			r = append(r, fmt.Sprintf("%#v", x))
		}
		return r
	}
	a, b := show(got), show(from)
	for i := 1; i < len(got); i++ {
		if cmp(got[i-1], got[i]) > 0 {
			return fmt.Errorf("%s: not ordered at %d: %v", name, i, a)
		}
	}
	sort.Strings(a)
	sort.Strings(b)
	if !reflect.DeepEqual(a, b) {
		return fmt.Errorf("%s: not a permutation: %v of %v", name, a, b)
	}
	if !isSorted {
		return fmt.Errorf("%s: the result does not count as sorted", name)
	}
	return nil
}

func ordered[T any](xs []T, cmp func(a, b T) int) bool {
	for i := 1; i < len(xs); i++ {
		if cmp(xs[i-1], xs[i]) > 0 {
			return false
		}
	}
	return true
}

type p28Case struct {
	Entries, Other po.Entries
	Locs           po.Locations
	Forms          po.PluralEntries
}

func drawP28(t *rapid.T) p28Case {
	c := p28Case{Entries: pool(t, 0, 6), Other: pool(t, 0, 3)}
	if chance(t, "long", 10) {
		c.Entries = append(c.Entries, pool(t, 10, 30)...)
	}
	c.Entries = throng(t, c.Entries)
	for i := intn(t, "nl", 0, 6); i > 0; i-- {
		c.Locs = append(c.Locs, poolLocation(t))
	}
	for i := intn(t, "nf", 0, 6); i > 0; i-- {
		f := po.PluralEntry{ID: intn(t, "fid", 0, 3), Str: oneOf(t, "fstr", "", "a", "b", "é")}
		if chance(t, "xid", 5) {
			f.ID = oneOf(t, "xfid", maxInt, minInt, -1)
		}
		c.Forms = append(c.Forms, f)
	}
	return c
}

func checkP28(c p28Case, x *Ctx) error {
	x.NonTrivial(len(c.Entries) >= 3)
	x.Label("more than 12 messages", len(c.Entries) > 12)
	x.Label("plural and singular", has(c.Entries, func(e po.Entry) bool { return e.Plural != "" }) && has(c.Entries, func(e po.Entry) bool { return e.Plural == "" }))
	for _, o := range entryOrders {
		if err := checkOrder(o, c.Entries); err != nil {
			return err
		}
		want := o.want
		if want == nil {
			want = o.cmp
		}
		if got := c.Entries.IsSortedFunc(o.cmp); got != ordered(c.Entries, want) {
			return fmt.Errorf("IsSortedFunc(%s) = %v", o.name, got)
		}
		s := clone(c.Entries)
		if err := checkSorted("SortFunc("+o.name+")", s.SortFunc(o.cmp), c.Entries, want, s.IsSortedFunc(o.cmp)); err != nil {
			return err
		}
		s = clone(c.Entries)
		if err := checkSorted("PrepareSorter("+o.name+")", s.PrepareSorter(o.cmp)(), c.Entries, want, true); err != nil {
			return err
		}
		if got, want := sign(po.CompareEntriesFunc(c.Entries, c.Other, o.cmp)), cmpList(c.Entries, c.Other, want); got != sign(want) {
			return fmt.Errorf("CompareEntriesFunc(%s) = %d, want %d", o.name, got, want)
		}
	}
	for m, k := range modes {
		o := entryOrders[k]
		if err := checkSorted(fmt.Sprintf("sort mode %d", m), m.SortMethod(clone(c.Entries))(), c.Entries, o.want, true); err != nil {
			return err
		}
	}
	s := clone(c.Entries)
	s = s.Sort()
	if err := checkSorted("Sort", s, c.Entries, entryOrders[6].want, s.IsSorted()); err != nil {
		return err
	}
	if got := c.Entries.IsSorted(); got != ordered(c.Entries, entryOrders[6].want) {
		return fmt.Errorf("IsSorted() = %v", got)
	}
	for i, o := range locOrders {
		if err := checkOrder(o, c.Locs); err != nil {
			return err
		}
		l := append(po.Locations(nil), c.Locs...)
		if got := l.IsSortedFunc(o.cmp); got != ordered(l, o.want) {
			return fmt.Errorf("Locations.IsSortedFunc(%s) = %v", o.name, got)
		}
		if i == 0 {
			if got := l.IsSorted(); got != ordered(l, o.want) {
				return fmt.Errorf("Locations.IsSorted() = %v", got)
			}
			l2 := append(po.Locations(nil), c.Locs...).Sort()
			if err := checkSorted("Locations.Sort", l2, c.Locs, o.want, l2.IsSorted()); err != nil {
				return err
			}
		}
		l = l.SortFunc(o.cmp)
		if err := checkSorted("Locations.SortFunc", l, c.Locs, o.want, l.IsSortedFunc(o.cmp)); err != nil {
			return err
		}
		if len(c.Locs) > 1 {
			a, b := c.Locs[:len(c.Locs)/2], c.Locs[len(c.Locs)/2:]
			if got := sign(po.CompareLocationsFunc(a, b, o.cmp)); got != sign(cmpList(a, b, o.want)) {
				return fmt.Errorf("CompareLocationsFunc(%s) = %d", o.name, got)
			}
		}
	}
	for i, o := range formOrders {
		if err := checkOrder(o, c.Forms); err != nil {
			return err
		}
		l := append(po.PluralEntries(nil), c.Forms...)
		if got := l.IsSortedFunc(o.cmp); got != ordered(l, o.want) {
			return fmt.Errorf("PluralEntries.IsSortedFunc(%s) = %v", o.name, got)
		}
		if i == 0 {
			if got := l.IsSorted(); got != ordered(l, o.want) {
				return fmt.Errorf("PluralEntries.IsSorted() = %v", got)
			}
			l2 := append(po.PluralEntries(nil), c.Forms...).Sort()
			if err := checkSorted("PluralEntries.Sort", l2, c.Forms, o.want, l2.IsSorted()); err != nil {
				return err
			}
		}
		l = l.SortFunc(o.cmp)
		if err := checkSorted("PluralEntries.SortFunc", l, c.Forms, o.want, l.IsSortedFunc(o.cmp)); err != nil {
			return err
		}
		if len(c.Forms) > 1 {
			a, b := c.Forms[:len(c.Forms)/2], c.Forms[len(c.Forms)/2:]
			if got := sign(po.ComparePluralEntriesFunc(a, b, o.cmp)); got != sign(cmpList(a, b, o.want)) {
				return fmt.Errorf("ComparePluralEntriesFunc(%s) = %d", o.name, got)
			}
		}
	}
	return nil
}

// --- P29: duplicates ---------------------------------------------------------

func drawP29(t *rapid.T) po.Entries {
	es := pool(t, 0, 7)
	if chance(t, "long", 10) {
		es = append(es, pool(t, 8, 30)...)
	}
	es = throng(t, es)
	for i := range es {
		es[i].Comments = texts(t, "comment", 2, line)
		if es[i].Plural != "" && chance(t, "both", 10) { // invalid: singular and plural
			es[i].Str = oneOf(t, "bothstr", "x", "y")
		}
	}
	if chance(t, "sortedlist", 35) { // in an order of the library, so that duplicates are next to each other or not
		es = es.SortFunc(oneOf(t, "order", po.CompareEntry, po.CompareEntryByID, po.CompareEntryByFile, po.CompareEntryByStr))
	}
	return es
}

func checkP29(es po.Entries, x *Ctx) error {
	x.NonTrivial(hasDups(es))
	x.Label("duplicates", hasDups(es))
	x.Label("no duplicates", !hasDups(es))
	in, unchanged := guarded(es)
	got := in.CleanDuplicates()
	if err := unchanged(); err != nil {
		return fmt.Errorf("CleanDuplicates: %v", err)
	}
	if err := checkDeduped(got, es); err != nil {
		return fmt.Errorf("CleanDuplicates: %v", err)
	}
	if !hasDups(es) {
		if err := diffEntries(got, es); err != nil {
			return fmt.Errorf("CleanDuplicates without duplicates: %v", err)
		}
	}
	if err := diffEntries(clone(got).CleanDuplicates(), got); err != nil {
		return fmt.Errorf("CleanDuplicates again: %v", err)
	}
	solved := in.Solve()
	if err := unchanged(); err != nil {
		return fmt.Errorf("Solve: %v", err)
	}
	if err := checkSolved(solved, es); err != nil {
		return fmt.Errorf("Solve: %v", err)
	}
	if err := diffEntries(clone(solved).Solve(), solved); err != nil {
		return fmt.Errorf("Solve again: %v", err)
	}
	if !hasDups(es) {
		if err := diffEntries(solved, es); err != nil {
			return fmt.Errorf("Solve without duplicates: %v", err)
		}
	}
	// Reports.
	if got := in.HasDuplicates(); got != hasDups(es) {
		return fmt.Errorf("HasDuplicates() = %v", got)
	}
	type rep struct {
		at, orig int
		kind     string
	}
	var dups, bad []rep
	at := map[string]int{}
	for i, e := range es {
		if j, ok := at[uid(e)]; ok {
			dups = append(dups, rep{i, j, "duplicate"})
		} else {
			at[uid(e)] = i
		}
		if e.Plural != "" && len(e.Plurals) > 0 && e.Str != "" {
			bad = append(bad, rep{i, -1, "plural and singular"})
		}
	}
	reports := func(errs []error, file string) (out []rep, err error) {
		for _, e := range errs {
			var f *po.InvalidFileError
			if errors.As(e, &f) != (file != "") || (file != "" && f.Filename != file) {
				return nil, fmt.Errorf("report %v does not name the file %q", e, file)
			}
			var ix *po.InvalidEntryAtIndexError
			var ie *po.InvalidEntryError
			if !errors.As(e, &ix) || !errors.As(e, &ie) {
				return nil, fmt.Errorf("report %v without the place of the message", e)
			}
			r := rep{ix.Index, -1, "?"}
			var d *po.DuplicatedEntryError
			if errors.As(e, &d) {
				r.orig, r.kind = d.OriginalIndex, "duplicate"
			} else if errors.Is(e, po.ErrBadPluralEntry) {
				r.kind = "plural and singular"
			}
			if ix.Index < 0 || ix.Index >= len(es) || ie.ID != keyOf(es[ix.Index]) {
				return nil, fmt.Errorf("report %v names another message", e)
			}
			out = append(out, r)
		}
		return out, nil
	}
	f := po.File{Name: "cat.po", Entries: in}
	for _, r := range []struct {
		name, file string
		errs       []error
		want       []rep
	}{
		{"CatchDuplicateEntries", "", in.CatchDuplicateEntries(), dups},
		{"Validate", "", in.Validate(), append(dups[:len(dups):len(dups)], bad...)},
		{"File.CatchDuplicateEntries", "cat.po", f.CatchDuplicateEntries(), dups},
		{"File.Validate", "cat.po", f.Validate(), append(dups[:len(dups):len(dups)], bad...)},
	} {
		got, err := reports(r.errs, r.file)
		if err != nil {
			return fmt.Errorf("%s: %v", r.name, err)
		}
		if len(got)+len(r.want) > 0 && !reflect.DeepEqual(got, r.want) {
			return fmt.Errorf("%s reports %v, want %v", r.name, got, r.want)
		}
	}
	for _, e := range es {
		if got := len(e.Validate()) > 0; got != (e.Plural != "" && len(e.Plurals) > 0 && e.Str != "") {
			return fmt.Errorf("Validate of %s reports a problem: %v", showEntry(e), got)
		}
	}
	return unchanged()
}

// checkSolved is like checkDeduped, but the translation may come from another definition than the rest.
func checkSolved(got, from po.Entries) error {
	defs := map[string]po.Entries{}
	var order []string
	for _, e := range from {
		if _, ok := defs[uid(e)]; !ok {
			order = append(order, uid(e))
		}
		defs[uid(e)] = append(defs[uid(e)], e)
	}
	if len(got) != len(order) {
		return fmt.Errorf("%d messages left, want %d", len(got), len(order))
	}
	for i, e := range got {
		if uid(e) != order[i] {
			return fmt.Errorf("message %d is %s, want the first place of %q", i, showEntry(e), order[i])
		}
		var locs po.Locations
		for _, d := range defs[order[i]] {
			locs = append(locs, d.Locations...)
		}
		meta, tr := false, false
		anyTr := has(defs[order[i]], func(d po.Entry) bool { // a plural message has no singular translation
			return d.Str != "" && !d.IsPlural() || has2(d.Plurals)
		})
		for _, d := range defs[order[i]] {
			tr = tr || (d.Str == e.Str && reflect.DeepEqual(canon(d).Plurals, canon(e).Plurals))
			d.Locations, d.Str, d.Plurals = locs, e.Str, e.Plurals
			meta = meta || sameEntry(d, e)
		}
		if !meta || !tr {
			return fmt.Errorf("message %d is %s, not put together from its definitions (comments and flags %v, translation %v):%s", i, showEntry(e), meta, tr, showAll(defs[order[i]]))
		}
		if anyTr && e.Str == "" && !has2(e.Plurals) {
			return fmt.Errorf("message %d is %s, although there is a translation:%s", i, showEntry(e), showAll(defs[order[i]]))
		}
	}
	return nil
}

func has2(p po.PluralEntries) bool {
	for _, f := range p {
		if f.Str != "" {
			return true
		}
	}
	return false
}

// --- P30: filters and lookups --------------------------------------------------

type p30Case struct {
	Entries po.Entries
	ID, Ctx string
}

func drawP30(t *rapid.T) p30Case {
	c := p30Case{Entries: pool(t, 0, 8), ID: oneOf(t, "qid", "", "a", "b", "ab", "none"), Ctx: oneOf(t, "qctx", "", "a", "c", "menu")}
	if len(c.Entries) > 0 && chance(t, "present", 40) {
		e := oneOf(t, "which", c.Entries...)
		c.ID, c.Ctx = e.ID, e.Context
	}
	if chance(t, "similar", 30) {
		similar := []string{"open the file", "open the files", "Open the file", "openthefile", "close", "open the door of the big house"}
		for i := intn(t, "nsimilar", 1, 3); i > 0; i-- {
			e := po.Entry{ID: oneOf(t, "simid", similar...), Str: "x"}
			if chance(t, "simhasctx", 50) {
				e.Context = oneOf(t, "simctx", similar...)
			}
			c.Entries = append(c.Entries, e)
		}
		c.ID = oneOf(t, "qsimid", similar...)
		c.Ctx = oneOf(t, "qsimctx", append([]string{"", ""}, similar...)...)
	}
	for i, e := range c.Entries { // at most one header
		if e.ID == "" && e.Context == "" && chance(t, "nohdr", 60) {
			c.Entries[i].ID = "h" + fmt.Sprint(i)
		}
	}
	return c
}

func keep(es po.Entries, f func(po.Entry) bool) (r po.Entries) {
	for _, e := range es {
		if f(e) {
			r = append(r, e)
		}
	}
	return r
}

// apart tells whether two texts have no character in common.
func apart(a, b string) bool { return a != b && !strings.ContainsAny(a, b) }

func checkP30(c p30Case, x *Ctx) error {
	in, unchanged := guarded(c.Entries)
	x.NonTrivial(len(c.Entries) >= 3)
	hi := -1
	for i, e := range c.Entries {
		if e.ID == "" && e.Context == "" && hi < 0 {
			hi = i
		}
	}
	x.Label("header", hi >= 0)
	noHeader := clone(c.Entries)
	if hi >= 0 {
		noHeader = append(noHeader[:hi:hi], noHeader[hi+1:]...)
	}
	for _, f := range []struct {
		name string
		run  func() po.Entries
		want po.Entries
	}{
		{"CleanFuzzy", in.CleanFuzzy, keep(c.Entries, func(e po.Entry) bool { return !isFuzzy(e) })},
		{"CleanObsoletes", in.CleanObsoletes, keep(c.Entries, func(e po.Entry) bool { return !e.Obsolete })},
		{"CleanEmpties", in.CleanEmpties, keep(c.Entries, func(e po.Entry) bool { return e.ID != "" })},
		{"CutHeader", in.CutHeader, noHeader},
	} {
		got := f.run()
		if err := unchanged(); err != nil {
			return fmt.Errorf("%s: %v", f.name, err)
		}
		if err := diffEntries(got, f.want); err != nil {
			return fmt.Errorf("%s: %v", f.name, err)
		}
	}
	if got := in.HasHeader(); got != (hi >= 0) {
		return fmt.Errorf("HasHeader() = %v", got)
	}
	want := -1
	for i, e := range c.Entries {
		if e.ID == c.ID && e.Context == c.Ctx {
			want = i
			break
		}
	}
	x.Label("lookup found", want >= 0)
	x.Label("lookup not found", want < 0)
	q := po.Entry{ID: c.ID, Context: c.Ctx}
	if got := in.Index(c.ID, c.Ctx); got != want {
		return fmt.Errorf("Index(%q, %q) = %d, want %d", c.ID, c.Ctx, got, want)
	}
	if got := in.IndexByUnifiedID(q.UnifiedID()); got != want {
		return fmt.Errorf("IndexByUnifiedID(%q, %q) = %d, want %d", c.ID, c.Ctx, got, want)
	}
	if got := in.ContainsUnifiedID(q.UnifiedID()); got != (want >= 0) {
		return fmt.Errorf("ContainsUnifiedID = %v", got)
	}
	byID := func(e po.Entry) bool { return e.ID == c.ID }
	wantF := -1
	for i, e := range c.Entries {
		if byID(e) {
			wantF = i
			break
		}
	}
	if got := in.IndexFunc(byID); got != wantF {
		return fmt.Errorf("IndexFunc = %d, want %d", got, wantF)
	}
	if got := in.ContainsFunc(byID); got != (wantF >= 0) {
		return fmt.Errorf("ContainsFunc = %v", got)
	}
	if i := in.FuzzyFind(c.ID, c.Ctx); i >= 0 {
		if i >= len(c.Entries) || apart(c.Entries[i].ID, c.ID) || apart(c.Entries[i].Context, c.Ctx) {
			return fmt.Errorf("FuzzyFind(%q, %q) = %d, which is not similar:%s", c.ID, c.Ctx, i, showAll(c.Entries))
		}
		x.Label("fuzzy find", c.Entries[i].ID != c.ID || c.Entries[i].Context != c.Ctx)
	}
	if i := in.FuzzyFind(c.ID, c.Ctx); want >= 0 && c.ID != "" && (i < 0 || i > want) {
		return fmt.Errorf("FuzzyFind(%q, %q) = %d although message %d has exactly this id and context", c.ID, c.Ctx, i, want)
	}
	for _, a := range c.Entries {
		for _, b := range c.Entries {
			same := a.ID == b.ID && a.Context == b.Context
			if (a.UnifiedID() == b.UnifiedID()) != same {
				return fmt.Errorf("UnifiedID of %s and %s: %q, %q", showEntry(a), showEntry(b), a.UnifiedID(), b.UnifiedID())
			}
			if (a.FullUnifiedID() == b.FullUnifiedID()) != (same && a.Plural == b.Plural) {
				return fmt.Errorf("FullUnifiedID of %s and %s: %q, %q", showEntry(a), showEntry(b), a.FullUnifiedID(), b.FullUnifiedID())
			}
			if same && a.Hash() != b.Hash() {
				return fmt.Errorf("different hashes of the same id")
			}
		}
		if a.HasContext() != (a.Context != "") || a.IsFuzzy() != isFuzzy(a) || a.IsHeader() != (a.ID == "" && a.Context == "") || a.IsPlural() != (a.Plural != "" || len(a.Plurals) > 0) {
			return fmt.Errorf("predicates of %s", showEntry(a))
		}
		if a.HasComments() != (len(a.Flags)+len(a.Comments)+len(a.ExtractedComments)+len(a.Previous)+len(a.Locations) > 0) {
			return fmt.Errorf("HasComments of %s", showEntry(a))
		}
	}
	return unchanged()
}

// --- P31: equality ---------------------------------------------------------------

type p31Case struct {
	Entries po.Entries
	Change  string
	At      int
	S       string
}

var entryChanges = []string{"id", "hash twin", "hash twin of form", "context", "plural", "str", "form", "flags+", "flags-", "flag", "flag order", "obsolete"}
var listChanges = []string{"comments", "extracted", "previous", "loc file", "loc line", "loc line far", "loc+", "form id", "length", "swap"}

// change alters one field of one message; it reports whether anything changed.
func (c p31Case) change(es po.Entries) bool {
	if len(es) == 0 {
		return false
	}
	e := &es[c.At%len(es)]
	switch c.Change {
	case "id":
		e.ID += c.S
	case "hash twin": // another id of the same hash
		t, ok := hashTwin(e.ID)
		if !ok {
			return false
		}
		e.ID = t
	case "hash twin of form":
		t, ok := hashTwin(e.Str)
		if len(e.Plurals) > 0 {
			t, ok = hashTwin(e.Plurals[0].Str)
			if ok {
				e.Plurals[0].Str = t
			}
		} else if ok {
			e.Str = t
		}
		return ok
	case "context":
		e.Context += c.S
	case "plural":
		if e.Plural == "" {
			return false
		}
		e.Plural += c.S
	case "str":
		if e.Plural != "" {
			return false
		}
		e.Str += c.S
	case "form":
		if len(e.Plurals) == 0 {
			return false
		}
		e.Plurals[c.At%len(e.Plurals)].Str += c.S
	case "flags+":
		e.Flags = append(e.Flags, "x"+c.S)
	case "flags-":
		if len(e.Flags) == 0 {
			return false
		}
		e.Flags = e.Flags[1:]
	case "flag":
		if len(e.Flags) == 0 {
			return false
		}
		e.Flags[c.At%len(e.Flags)] += c.S
	case "flag order":
		i := c.At % (len(e.Flags) + 1)
		if i+1 >= len(e.Flags) || e.Flags[i] == e.Flags[i+1] {
			return false
		}
		e.Flags[i], e.Flags[i+1] = e.Flags[i+1], e.Flags[i]
	case "obsolete":
		e.Obsolete = !e.Obsolete
	case "comments":
		e.Comments = append(e.Comments, c.S)
	case "extracted":
		e.ExtractedComments = append([]string{c.S}, e.ExtractedComments...)
	case "previous":
		e.Previous = append(e.Previous, c.S)
	case "loc file", "loc line", "loc line far":
		if len(e.Locations) == 0 {
			return false
		}
		l := &e.Locations[c.At%len(e.Locations)]
		switch c.Change {
		case "loc file":
			l.File += c.S
		case "loc line far": // equal in 8, 16 or 32 bits
			l.Line ^= 1 << [...]int{8, 16, 32, 62}[c.At%4]
		default:
			l.Line += 1 + len(c.S)
		}
	case "loc+":
		e.Locations = append(e.Locations, po.Location{File: c.S})
	case "form id":
		if len(e.Plurals) == 0 {
			return false
		}
		e.Plurals[c.At%len(e.Plurals)].ID += 7
	case "swap":
		i, j := c.At%len(es), (c.At+1)%len(es)
		if sameEntry(es[i], es[j]) {
			return false
		}
		es[i], es[j] = es[j], es[i]
	}
	return true
}

// hashTwin returns a text of the same length and 32-bit hash.
func hashTwin(s string) (string, bool) {
	for i := 0; i+1 < len(s); i++ {
		if a, b := s[i], s[i+1]; a >= ' ' && a < '~' && b >= ' '+16 && b < 0x7f {
			return s[:i] + string([]byte{a + 1, b - 16}) + s[i+2:], true
		}
	}
	return "", false
}

func checkP31(c p31Case, x *Ctx) error {
	es := clone(c.Entries)
	mod := clone(c.Entries)
	var changed bool
	if c.Change == "length" {
		mod = append(mod, po.Entry{ID: c.S})
		changed = true
	} else {
		changed = c.change(mod)
	}
	x.NonTrivial(changed)
	x.Label("change of "+c.Change, changed)
	own := contains(entryChanges, c.Change)
	a, b, m := &po.File{Name: "n", Entries: es}, &po.File{Name: "n", Entries: clone(c.Entries)}, &po.File{Name: "n", Entries: mod}
	if !a.Equal(*b) || !a.Equal(*a) || !a.Entries.Equal(b.Entries) || !a.Entries.Equal(a.Entries) {
		return fmt.Errorf("a copy is not equal")
	}
	if (a.Entries.Equal(m.Entries) || a.Equal(*m)) && changed {
		return fmt.Errorf("lists that differ in %s are equal", c.Change)
	}
	if a.Entries.Equal(m.Entries) != m.Entries.Equal(a.Entries) || a.Equal(*m) != m.Equal(*a) {
		return fmt.Errorf("equality of lists is not symmetric (%s)", c.Change)
	}
	if renamed := (po.File{Name: "n" + c.S, Entries: es}); renamed.Equal(*a) {
		return fmt.Errorf("files of different names are equal")
	}
	if err := sharedParts("messages", es, b.Entries, po.Entries.Equal); err != nil {
		return err
	}
	for i := range es {
		if err := sharedParts("references", es[i].Locations, b.Entries[i].Locations, po.Locations.Equal); err != nil {
			return err
		}
		if err := sharedParts("plural forms", es[i].Plurals, b.Entries[i].Plurals, po.PluralEntries.Equal); err != nil {
			return err
		}
		if !es[i].Equal(b.Entries[i]) {
			return fmt.Errorf("a copy of %s is not equal to it", showEntry(es[i]))
		}
		if !es[i].Locations.Equal(b.Entries[i].Locations) || !es[i].Plurals.Equal(b.Entries[i].Plurals) {
			return fmt.Errorf("copied references or plural forms are not equal")
		}
		if c.Change == "length" || c.Change == "swap" {
			continue
		}
		if es[i].Equal(mod[i]) != mod[i].Equal(es[i]) {
			return fmt.Errorf("equality of messages is not symmetric (%s)", c.Change)
		}
		if !changed || i != c.At%len(es) {
			continue
		}
		// The number of a form is part of the translation only in that it orders the forms.
		if c.Change != "form id" && es[i].Equal(mod[i]) == own {
			return fmt.Errorf("messages that differ in %s: equal %v\n%s\n%s", c.Change, !own, showEntry(es[i]), showEntry(mod[i]))
		}
		if strings.HasPrefix(c.Change, "loc") {
			if es[i].Locations.Equal(mod[i].Locations) || mod[i].Locations.Equal(es[i].Locations) {
				return fmt.Errorf("references that differ in %s are equal", c.Change)
			}
			if c.Change != "loc+" {
				k := c.At % len(es[i].Locations)
				if es[i].Locations[k].Equal(mod[i].Locations[k]) {
					return fmt.Errorf("locations that differ in %s are equal", c.Change)
				}
			}
		}
		if strings.HasPrefix(c.Change, "form") {
			k := c.At % len(es[i].Plurals)
			if es[i].Plurals.Equal(mod[i].Plurals) || es[i].Plurals[k].Equal(mod[i].Plurals[k]) {
				return fmt.Errorf("plural forms that differ in %s are equal", c.Change)
			}
		}
	}
	return nil
}

// sharedParts compares parts of a list, that share its memory. The other list is a copy of it.
func sharedParts[S ~[]E, E any](what string, s, other S, equal func(S, S) bool) error {
	n := len(s)
	for k := 0; k < n && k < 5; k++ {
		if equal(s[:k], s) || equal(s, s[:k]) || equal(s[n-k:], s) || equal(s, s[n-k:]) {
			return fmt.Errorf("%d of %d %s are equal to all of them", k, n, what)
		}
	}
	if n > 1 && equal(s[1:], s[:n-1]) != equal(s[1:], other[:n-1]) {
		return fmt.Errorf("%s: two parts of a list compare in another way than copies of them", what)
	}
	return nil
}

// --- P32: catalog as a map -----------------------------------------------------------

type mapOp struct {
	Op, ID, Ctx, Str string
	Plural           bool
	As               string `json:",omitempty"`
}

type p32Case struct {
	Start po.Entries
	Ops   []mapOp
}

func checkP32(c p32Case, x *Ctx) error {
	f := po.NewFile("n", clone(c.Start)...)
	model := clone(c.Start)
	find := func(id, ctx string) int {
		for i, e := range model {
			if e.ID == id && e.Context == ctx {
				return i
			}
		}
		return -1
	}
	sets := 0
	for i, o := range c.Ops {
		k := find(o.ID, o.Ctx)
		x.Label(o.Op+" present", k >= 0)
		x.Label(o.Op+" absent", k < 0)
		e := po.Entry{ID: o.ID, Context: o.Ctx, Str: o.Str}
		switch o.Op {
		case "set":
			sets++
			if o.Plural {
				e.Plural, e.Str, e.Plurals = o.ID+"s", "", po.PluralEntries{{ID: 0, Str: o.Str}, {ID: 1, Str: o.Str + "s"}}
			}
			if o.As != "" { // Stored in the place of one message, it is another.
				e.ID = o.As
			}
			f.Set(o.ID, o.Ctx, e)
			if k >= 0 {
				model[k] = e
			} else {
				model = append(model, e)
			}
		default:
			want := ""
			if k >= 0 {
				want = model[k].Str
			}
			got := f.Load(o.ID, o.Ctx)
			if o.Op == "load by id" {
				got = f.LoadByUnifiedID(e.UnifiedID())
			}
			if got != want {
				return fmt.Errorf("step %d: %s(%q, %q) = %q, want %q", i, o.Op, o.ID, o.Ctx, got, want)
			}
		}
		if err := diffEntries(f.Entries, model); err != nil {
			return fmt.Errorf("step %d, %s(%q, %q): %v", i, o.Op, o.ID, o.Ctx, err)
		}
		if f.Index(o.ID, o.Ctx) != find(o.ID, o.Ctx) {
			return fmt.Errorf("step %d: Index(%q, %q) = %d", i, o.ID, o.Ctx, f.Index(o.ID, o.Ctx))
		}
	}
	x.NonTrivial(sets >= 2)
	return nil
}

// --- P38: similarity -------------------------------------------------------------------

type p38Case struct {
	A, B po.Entry
	List po.Entries
}

func drawSimilar(t *rapid.T, l string) po.Entry {
	s := func(k string) string {
		switch intn(t, l+k, 0, 4) {
		case 0:
			return ""
		case 1:
			return text(t, l+k+".t")
		}
		return oneOf(t, l+k+".w", "file", "files", "open file", "Open the file", "apple", "aple", "日本語", "日本", "a", "ab", strings.Repeat("long text ", 20))
	}
	e := po.Entry{ID: s("id"), Context: "", Str: s("str")}
	if chance(t, l+"ctx", 30) {
		e.Context = s("context")
	}
	if chance(t, l+"pl", 35) {
		e.Plural, e.Str = s("plural"), ""
		if e.Plural == "" {
			e.Plural = "p"
		}
		for i := intn(t, l+"n", 0, 3); i > 0; i-- {
			e.Plurals = append(e.Plurals, po.PluralEntry{ID: len(e.Plurals), Str: s("form")})
		}
	}
	return e
}

// alienText returns a text without any character of the generated ones.
func alienText(s string) string {
	var b strings.Builder
	for range s {
		b.WriteRune('ꙮ')
	}
	return b.String()
}

func checkP38(c p38Case, x *Ctx) error {
	x.NonTrivial(c.A.ID != c.B.ID)
	x.Label("empty ids", c.A.ID == "" && c.B.ID == "")
	x.Label("plural pair", c.A.Plural != "" && c.B.Plural != "")
	for name, f := range map[string]func(a, b po.Entry) int{"EntryIDMatchRatio": po.EntryIDMatchRatio, "EntryStrMatchRatio": po.EntryStrMatchRatio} {
		r := f(c.A, c.B)
		if r < 0 || r > 100 {
			return fmt.Errorf("%s = %d", name, r)
		}
		if r2 := f(c.B, c.A); r != r2 {
			return fmt.Errorf("%s is not symmetric: %d and %d\n%s\n%s", name, r, r2, showEntry(c.A), showEntry(c.B))
		}
		for _, e := range []po.Entry{c.A, c.B} {
			if r := f(e, canon(e)); r != 100 {
				return fmt.Errorf("%s of a message and its copy is %d: %s", name, r, showEntry(e))
			}
		}
	}
	b := canon(c.B)
	b.ID, b.Context, b.Plural = c.A.ID, c.A.Context, c.A.Plural
	if r := po.EntryIDMatchRatio(c.A, b); r != 100 {
		return fmt.Errorf("EntryIDMatchRatio of messages with equal ids is %d", r)
	}
	b = canon(c.A)
	b.ID, b.Context = c.B.ID, c.B.Context
	if r := po.EntryStrMatchRatio(c.A, b); r != 100 {
		return fmt.Errorf("EntryStrMatchRatio of messages with equal translations is %d: %s", r, showEntry(c.A))
	}
	if c.A.Plural == "" && c.B.Plural == "" && (c.A.Str == "") != (c.B.Str == "") {
		if r := po.EntryStrMatchRatio(c.A, c.B); r != 0 {
			return fmt.Errorf("EntryStrMatchRatio of a translated and an untranslated message is %d", r)
		}
	}
	alien := func(e po.Entry) po.Entry { // nothing in common with any other text
		e = canon(e)
		e.ID, e.Str = alienText(e.ID), alienText(e.Str)
		if e.Plural != "" {
			e.Plural = alienText(e.Plural)
		}
		if e.Context != "" {
			e.Context = alienText(e.Context)
		}
		for i := range e.Plurals {
			e.Plurals[i].Str = alienText(e.Plurals[i].Str)
		}
		return e
	}
	z := alien(c.A)
	if r := po.EntryIDMatchRatio(c.A, z); r != 0 && c.A.ID != "" {
		return fmt.Errorf("EntryIDMatchRatio of messages whose ids have nothing in common is %d:\n%s\n%s", r, showEntry(c.A), showEntry(z))
	}
	if has2(c.A.Plurals) || c.A.Str != "" {
		forms := true
		for _, f := range c.A.Plurals {
			forms = forms && f.Str != ""
		}
		if r := po.EntryStrMatchRatio(c.A, z); forms && r != 0 {
			return fmt.Errorf("EntryStrMatchRatio of messages whose translations have nothing in common is %d:\n%s\n%s", r, showEntry(c.A), showEntry(z))
		}
	}
	for _, part := range []func(*po.Entry){ // a difference in any part counts
		func(e *po.Entry) { e.ID = z.ID }, func(e *po.Entry) { e.Context = z.Context }, func(e *po.Entry) { e.Plural = z.Plural },
	} {
		e := canon(c.A)
		part(&e)
		if r := po.EntryIDMatchRatio(c.A, e); (e.ID != c.A.ID || e.Context != c.A.Context || e.Plural != c.A.Plural) && r > 67 {
			return fmt.Errorf("EntryIDMatchRatio is %d although a part of the id has nothing in common:\n%s\n%s", r, showEntry(c.A), showEntry(e))
		}
	}
	for i, f := range c.A.Plurals {
		if n := len(c.A.Plurals); f.Str != "" {
			e := canon(c.A)
			e.Plurals[i].Str = alienText(f.Str)
			if r := po.EntryStrMatchRatio(c.A, e); r > 100-100/n+1 {
				return fmt.Errorf("EntryStrMatchRatio is %d although form %d of %d has nothing in common:\n%s\n%s", r, i, n, showEntry(c.A), showEntry(e))
			}
		}
	}
	for name, f := range map[string]struct {
		best  func(po.Entry) (int, int)
		ratio func(a, b po.Entry) int
	}{"BestIDRatio": {c.List.BestIDRatio, po.EntryIDMatchRatio}, "BestStrRatio": {c.List.BestStrRatio, po.EntryStrMatchRatio}} {
		i, r := f.best(c.A)
		high := 0
		for _, e := range c.List {
			if q := f.ratio(c.A, e); q > high {
				high = q
			}
		}
		if r != high {
			return fmt.Errorf("%s = %d, the highest similarity is %d", name, r, high)
		}
		if len(c.List) > 0 && (i < 0 || i >= len(c.List) || f.ratio(c.A, c.List[i]) != high) {
			return fmt.Errorf("%s is message %d, which does not have the similarity %d", name, i, high)
		}
	}
	return nil
}

func init() {
	register("P28", 40000, 800000,
		"0-36 messages that often agree in some key, references with equivalent file spellings and extreme lines, plural forms; every comparison on all triples of up to 8, every sort and sorted test; non-trivial: at least 3 messages",
		drawP28, checkP28)
	register("P29", 80000, 1600000,
		"0-37 messages with often equal ids and contexts, invalid plural/singular mixes, spare slice capacity; non-trivial: there are duplicates",
		drawP29, checkP29)
	register("P30", 100000, 2000000,
		"0-8 messages with often equal ids, at most few headers, lookups of present, absent and similar ids; non-trivial: at least 3 messages",
		drawP30, checkP30)
	register("P31", 100000, 2000000,
		"0-5 messages, compared with copies and with a version that differs in one chosen field; non-trivial: the field was changed",
		func(t *rapid.T) p31Case {
			es := pool(t, 0, 5)
			for i := range es {
				if chance(t, "longer", 20) {
					es[i].ID = nonEmpty(t, "longid")
				}
			}
			return p31Case{Entries: es, Change: oneOf(t, "change", append(append([]string{}, entryChanges...), listChanges...)...), At: intn(t, "at", 0, 9), S: oneOf(t, "s", "x", "\n", "é", "0", " ")}
		}, checkP31)
	register("P32", 60000, 1200000,
		"1-20 Set/Load/LoadByUnifiedID operations over few ids and contexts on a catalog of 0-5 messages (repeated ids included); non-trivial: at least two Set",
		func(t *rapid.T) p32Case {
			c := p32Case{Start: pool(t, 0, 5)}
			for i := intn(t, "nops", 1, 20); i > 0; i-- {
				c.Ops = append(c.Ops, mapOp{Op: oneOf(t, "op", "set", "load", "load by id"), ID: oneOf(t, "opid", "", "a", "b", "ab", "new"), Ctx: oneOf(t, "opctx", "", "", "a", "c"), Str: oneOf(t, "opstr", "", "x", "y", "zz"), Plural: chance(t, "opplural", 20), As: oneOf(t, "opas", "", "", "", "", "a", "elsewhere")})
			}
			return c
		}, checkP32)
	register("P38", 100000, 2000000,
		"pairs and lists of messages with similar, equal, empty and unrelated ids and translations, plural and singular; non-trivial: the ids differ",
		func(t *rapid.T) p38Case {
			c := p38Case{A: drawSimilar(t, "a"), B: drawSimilar(t, "b")}
			for i := intn(t, "nlist", 0, 4); i > 0; i-- {
				c.List = append(c.List, drawSimilar(t, "l"))
			}
			if chance(t, "near", 40) { // several messages that are almost alike
				for i := intn(t, "nnear", 1, 4); i > 0; i-- {
					e := canon(c.A)
					pad := strings.Repeat("x", intn(t, "pad", 0, 3))
					switch intn(t, "nearpart", 0, 3) {
					case 0:
						e.ID += pad
					case 1:
						e.Str = pad + e.Str
					case 2:
						if len(e.Plurals) > 0 {
							e.Plurals[0].Str += pad
						}
					default:
						e.ID, e.Str = e.ID+pad, e.Str+pad
					}
					p := intn(t, "nearpos", 0, len(c.List))
					c.List = append(c.List[:p:p], append(po.Entries{e}, c.List[p:]...)...)
				}
			}
			return c
		}, checkP38)
}
