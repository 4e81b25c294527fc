package main

import (
	"fmt"
	"reflect"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// guarded makes a deep copy of a message list whose slices all have spare capacity filled with
// sentinels, and returns a function reporting any change of the copy, spare capacity included.
func guarded(es po.Entries) (po.Entries, func() error) {
	strs := func(s []string) []string {
		if s == nil {
			return nil
		}
		r := make([]string, len(s)+2)
		copy(r, s)
		r[len(s)], r[len(s)+1] = "SPARE", "SPARE"
		return r[:len(s)]
	}
	build := func() po.Entries {
		r := make(po.Entries, len(es)+2)
		for i := range r {
			if i >= len(es) {
				r[i] = po.Entry{ID: "SPARE"}
				continue
			}
			e := es[i]
			e.Flags, e.Comments, e.ExtractedComments, e.Previous = strs(e.Flags), strs(e.Comments), strs(e.ExtractedComments), strs(e.Previous)
			if e.Plurals != nil {
				p := make(po.PluralEntries, len(e.Plurals)+2)
				copy(p, e.Plurals)
				p[len(e.Plurals)].Str, p[len(e.Plurals)+1].Str = "SPARE", "SPARE"
				e.Plurals = p[:len(e.Plurals)]
			}
			if e.Locations != nil {
				l := make(po.Locations, len(e.Locations)+2)
				copy(l, e.Locations)
				l[len(e.Locations)].File, l[len(e.Locations)+1].File = "SPARE", "SPARE"
				e.Locations = l[:len(e.Locations)]
			}
			r[i] = e
		}
		return r[:len(es)]
	}
	full := func(v po.Entries) []po.Entry {
		r := append([]po.Entry(nil), v[:cap(v)]...)
		for i := range r {
			e := &r[i]
			e.Flags, e.Comments, e.ExtractedComments, e.Previous = e.Flags[:cap(e.Flags)], e.Comments[:cap(e.Comments)], e.ExtractedComments[:cap(e.ExtractedComments)], e.Previous[:cap(e.Previous)]
			e.Plurals, e.Locations = e.Plurals[:cap(e.Plurals)], e.Locations[:cap(e.Locations)]
		}
		return r
	}
	mine, ref := build(), build()
	return mine, func() error {
		a, b := full(mine), full(ref)
		for i := range a {
			if !reflect.DeepEqual(a[i], b[i]) {
				where := ""
				if i >= len(es) {
					where = " (spare capacity)"
				}
				return fmt.Errorf("input message %d%s was modified in %s: now %s, was %s", i, where, diffFields(a[i], b[i]), showEntry(a[i]), showEntry(b[i]))
			}
		}
		return nil
	}
}
