package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// canon returns a deep copy with nil and empty slices identified.
func canon(e po.Entry) po.Entry {
	c := e
	c.Flags = cpStrings(e.Flags)
	c.Comments = cpStrings(e.Comments)
	c.ExtractedComments = cpStrings(e.ExtractedComments)
	c.Previous = cpStrings(e.Previous)
	c.Plurals = nil
	c.Plurals = append(c.Plurals, e.Plurals...)
	c.Locations = nil
	c.Locations = append(c.Locations, e.Locations...)
	return c
}

func cpStrings(s []string) []string {
	var r []string
	return append(r, s...)
}

func canonAll(es po.Entries) po.Entries {
	r := make(po.Entries, 0, len(es))
	for _, e := range es {
		r = append(r, canon(e))
	}
	return r
}

// clone makes a deep copy with no spare capacity.
func clone(es po.Entries) po.Entries {
	r := canonAll(es)
	return r[:len(r):len(r)]
}

// cloneSpare makes a deep copy whose slices have spare capacity filled with sentinels, so that
// in-place modification of a callee is visible.
func sameEntry(a, b po.Entry) bool { return reflect.DeepEqual(canon(a), canon(b)) }

func sameEntries(a, b po.Entries) bool { return reflect.DeepEqual(canonAll(a), canonAll(b)) }

func js(v any) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.Encode(v)
	return strings.TrimSpace(b.String())
}

// diffEntries explains the first difference between two lists.
func diffEntries(got, want po.Entries) error {
	if sameEntries(got, want) {
		return nil
	}
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Errorf("message %d missing (got %d, want %d messages): want %s", i, len(got), len(want), showEntry(want[i]))
		case i >= len(want):
			return fmt.Errorf("unexpected message %d (got %d, want %d messages): got %s", i, len(got), len(want), showEntry(got[i]))
		case !sameEntry(got[i], want[i]):
			return fmt.Errorf("message %d differs in %s:\n got %s\nwant %s", i, diffFields(got[i], want[i]), showEntry(got[i]), showEntry(want[i]))
		}
	}
	return nil
}

func diffFields(a, b po.Entry) string {
	va, vb := reflect.ValueOf(canon(a)), reflect.ValueOf(canon(b))
	var out []string
	for i := 0; i < va.NumField(); i++ {
		if !reflect.DeepEqual(va.Field(i).Interface(), vb.Field(i).Interface()) {
			out = append(out, va.Type().Field(i).Name)
		}
	}
	return strings.Join(out, ",")
}

func showEntry(e po.Entry) string {
	var b strings.Builder
	fmt.Fprintf(&b, "{id=%q", e.ID)
	if e.Context != "" {
		fmt.Fprintf(&b, " ctx=%q", e.Context)
	}
	if e.Plural != "" {
		fmt.Fprintf(&b, " plural=%q", e.Plural)
	}
	if e.Str != "" || len(e.Plurals) == 0 {
		fmt.Fprintf(&b, " str=%q", e.Str)
	}
	for _, p := range e.Plurals {
		fmt.Fprintf(&b, " str[%d]=%q", p.ID, p.Str)
	}
	if len(e.Flags) > 0 {
		fmt.Fprintf(&b, " flags=%q", e.Flags)
	}
	if len(e.Comments) > 0 {
		fmt.Fprintf(&b, " comments=%q", e.Comments)
	}
	if len(e.ExtractedComments) > 0 {
		fmt.Fprintf(&b, " extracted=%q", e.ExtractedComments)
	}
	if len(e.Previous) > 0 {
		fmt.Fprintf(&b, " previous=%q", e.Previous)
	}
	if len(e.Locations) > 0 {
		fmt.Fprintf(&b, " locations=%v", []po.Location(e.Locations))
	}
	if e.Obsolete {
		b.WriteString(" obsolete")
	}
	return b.String() + "}"
}

// split returns the non-obsolete, then the obsolete messages, each in order.
func activeThenObsolete(es po.Entries) po.Entries {
	var a, o po.Entries
	for _, e := range es {
		if e.Obsolete {
			o = append(o, e)
		} else {
			a = append(a, e)
		}
	}
	return append(a, o...)
}

func isFuzzy(e po.Entry) bool { return contains(e.Flags, "fuzzy") }

func special(s string) bool { return !isASCIIPlain(s) }

func entrySpecial(e po.Entry) bool {
	if special(e.ID) || special(e.Context) || special(e.Plural) || special(e.Str) {
		return true
	}
	for _, p := range e.Plurals {
		if special(p.Str) {
			return true
		}
	}
	return false
}

func anySpecial(es po.Entries) bool {
	for _, e := range es {
		if entrySpecial(e) {
			return true
		}
	}
	return false
}

func has(es po.Entries, f func(po.Entry) bool) bool {
	for _, e := range es {
		if f(e) {
			return true
		}
	}
	return false
}

// untranslated tells whether gettext takes the message as untranslated: its first form is empty.
func untranslated(e po.Entry) bool {
	if e.Plural == "" {
		return e.Str == ""
	}
	for _, p := range e.Plurals {
		if p.ID == 0 {
			return p.Str == ""
		}
	}
	return true
}

func without(xs []string, x string) []string {
	var r []string
	for _, y := range xs {
		if y != x {
			r = append(r, y)
		}
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var byteOrders = []binary.ByteOrder{binary.LittleEndian, binary.BigEndian}
