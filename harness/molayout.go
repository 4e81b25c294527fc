package main

import (
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
	"pgregory.net/rapid"
)

// --- P56: MO files of any layout ---------------------------------------------------------

// sysdepNames are names of system dependent segments: format macros, and a flag.
var sysdepNames = []string{"PRIu64", "PRId64", "PRIuMAX", "PRIxPTR", "PRIdLEAST64", "I"}

// moPiece is a string of an MO file: static pieces with system dependent names between them.
type moPiece struct {
	Static []string
	Names  []int // one less
}

// text is how PO files write the string.
func (p moPiece) text() string {
	var b strings.Builder
	for i, s := range p.Static {
		b.WriteString(s)
		if i < len(p.Names) {
			if n := sysdepNames[p.Names[i]]; len(n) > 1 {
				b.WriteString("<" + n + ">")
			} else {
				b.WriteString(n)
			}
		}
	}
	return b.String()
}

type p56Case struct {
	Big          bool
	Major, Minor int
	IDs, Strs    []string // as stored, in this order
	SysIDs       []moPiece
	SysStrs      []moPiece
	Places       []int // where the next block goes; see bytes
	Gap          []byte
	Share        bool
	Hash         int // slots of the hash table, filled with rubbish
	MustBe       bool
	Endian       parse.Endianness
	HashPlace    uint32
}

// bytes writes the file. Its parts follow the header in the order given by Places.
func (c p56Case) bytes() []byte {
	var o binary.ByteOrder = binary.LittleEndian
	if c.Big {
		o = binary.BigEndian
	}
	head := 28
	if c.Minor > 0 {
		head = 48
	}
	buf := make([]byte, head)
	put := func(off int, v uint32) { o.PutUint32(buf[off:], v) }
	step := 0
	gap := func(align bool) {
		if len(c.Places) > 0 {
			step++
			if g := c.Places[step%len(c.Places)] % (len(c.Gap) + 1); g > 0 {
				buf = append(buf, c.Gap[:g]...)
			}
		}
		for align && len(buf)%4 != 0 {
			buf = append(buf, 0)
		}
	}
	alloc := func(n int) int {
		gap(true)
		at := len(buf)
		buf = append(buf, make([]byte, n)...)
		return at
	}
	type placed struct {
		s  string
		at int
	}
	var shared []placed
	str := func(s string) int {
		if c.Share {
			if len(shared) > 16 { // not quadratic for many messages
				shared = shared[1:]
			}
			for _, p := range shared {
				if strings.HasSuffix(p.s, s) { // also the end of another string
					return p.at + len(p.s) - len(s)
				}
			}
		}
		gap(false)
		at := len(buf)
		buf = append(append(buf, s...), 0)
		shared = append(shared, placed{s, at})
		return at
	}
	put(0, 0x950412de)
	put(4, uint32(c.Major)<<16|uint32(c.Minor))
	n := len(c.IDs)
	put(8, uint32(n))
	tables := []func(){
		func() { put(12, uint32(alloc(8*n))) },
		func() { put(16, uint32(alloc(8*n))) },
		func() {
			if c.Hash > 0 {
				at := alloc(4 * c.Hash)
				for i := 0; i < c.Hash; i++ {
					put(at+4*i, uint32(i*7919%(n+1)))
				}
				put(20, uint32(c.Hash))
				put(24, uint32(at))
			} else {
				put(24, c.HashPlace)
			}
		},
	}
	if c.Minor > 0 {
		put(28, uint32(len(sysdepNames)))
		put(36, uint32(len(c.SysIDs)))
		tables = append(tables,
			func() { put(32, uint32(alloc(8*len(sysdepNames)))) },
			func() { put(40, uint32(alloc(4*len(c.SysIDs)))) },
			func() { put(44, uint32(alloc(4*len(c.SysIDs)))) },
		)
	}
	order := func(k int) []int { // a permutation of k things
		r := make([]int, k)
		for i := range r {
			r[i] = i
		}
		for i := k - 1; i > 0 && len(c.Places) > 0; i-- {
			step++
			j := c.Places[step%len(c.Places)] % (i + 1)
			r[i], r[j] = r[j], r[i]
		}
		return r
	}
	u := func(off int) int { return int(o.Uint32(buf[off:])) }
	// Strings may come before the tables: their places are filled in at the end.
	type place struct{ id, str int }
	places := make([]place, n)
	writeStrings := func() {
		for _, k := range order(2 * n) {
			if k < n {
				places[k].id = str(c.IDs[k])
			} else {
				places[k-n].str = str(c.Strs[k-n])
			}
		}
	}
	early := len(c.Places) > 0 && c.Places[0]%2 == 1
	if early {
		writeStrings()
	}
	for _, k := range order(len(tables)) {
		tables[k]()
	}
	if !early {
		writeStrings()
	}
	for i, p := range places {
		put(u(12)+8*i, uint32(len(c.IDs[i])))
		put(u(12)+8*i+4, uint32(p.id))
		put(u(16)+8*i, uint32(len(c.Strs[i])))
		put(u(16)+8*i+4, uint32(p.str))
	}
	if c.Minor > 0 {
		for i, s := range sysdepNames {
			at := str(s)
			put(u(32)+8*i, uint32(len(s)+1))
			put(u(32)+8*i+4, uint32(at))
		}
		for k, ps := range [][]moPiece{c.SysIDs, c.SysStrs} {
			for i, p := range ps {
				static := strings.Join(p.Static, "")
				at, d := 0, 0
				if step++; len(c.Places) > 0 && c.Places[step%len(c.Places)]%2 == 1 {
					d = alloc(4 + 8*len(p.Static))
					at = str(static)
				} else {
					at = str(static)
					d = alloc(4 + 8*len(p.Static))
				}
				put(u(40+4*k)+4*i, uint32(d))
				put(d, uint32(at))
				for j, s := range p.Static {
					l, ref := uint32(len(s)), uint32(0xffffffff)
					if j < len(p.Names) {
						ref = uint32(p.Names[j])
					} else {
						l++ // the last one includes the zero byte
					}
					put(d+4+8*j, l)
					put(d+8+8*j, ref)
				}
			}
		}
	}
	gap(false)
	return buf
}

// want are the messages the file states.
func (c p56Case) want() po.Entries {
	var es po.Entries
	add := func(id, str string) {
		var e po.Entry
		if i := strings.IndexByte(id, 4); i >= 0 {
			e.Context, id = id[:i], id[i+1:]
		}
		forms := strings.Split(str, "\x00")
		if i := strings.IndexByte(id, 0); i >= 0 {
			e.Plural, id = id[i+1:], id[:i]
			for k, f := range forms {
				e.Plurals = append(e.Plurals, po.PluralEntry{ID: k, Str: f})
			}
		} else {
			e.Str = str
		}
		e.ID = id
		es = append(es, e)
	}
	for i, id := range c.IDs {
		add(id, c.Strs[i])
	}
	if c.Minor > 0 {
		for i, id := range c.SysIDs {
			add(id.text(), c.SysStrs[i].text())
		}
	}
	return es
}

// drawPiece cuts a string into pieces with names between them.
func drawPiece(t *rapid.T, s string) (p moPiece) {
	rs := []rune(s)
	for k := intn(t, "npieces", 0, 3); k > 0; k-- {
		i := intn(t, "cut", 0, len(rs))
		p.Static = append(p.Static, string(rs[:i]))
		p.Names = append(p.Names, intn(t, "name", 0, len(sysdepNames)-1))
		rs = rs[i:]
	}
	p.Static = append(p.Static, string(rs))
	return p
}

func drawP56(t *rapid.T) (c p56Case) {
	m := drawMo(t, 5)
	c.Big = chance(t, "big", 50)
	c.Major, c.Minor = intn(t, "major", 0, 1), intn(t, "minor", 0, 1)
	es := sortedByKey(m.all())
	if chance(t, "unsorted", 30) {
		for i := len(es) - 1; i > 0; i-- {
			j := intn(t, "swap", 0, i)
			es[i], es[j] = es[j], es[i]
		}
	}
	for _, e := range es {
		if c.Minor > 0 && e.ID != "" && chance(t, "sysdep", 40) {
			c.SysIDs, c.SysStrs = append(c.SysIDs, drawPiece(t, moID(e))), append(c.SysStrs, drawPiece(t, moStr(e)))
			continue
		}
		c.IDs, c.Strs = append(c.IDs, moID(e)), append(c.Strs, moStr(e))
	}
	c.Places = rapid.SliceOfN(rapid.IntRange(0, 99), 0, 12).Draw(t, "places")
	c.Gap = rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t, "gap")
	c.Share = chance(t, "share", 40)
	c.Hash = oneOf(t, "hash", 0, 0, 1, 2, 3, 11, 40)
	c.HashPlace = oneOf(t, "hashplace", uint32(0), 28, 0xffffffff)
	c.MustBe = chance(t, "mustbe", 40)
	c.Endian = parse.NativeEndian
	if chance(t, "told", 40) {
		c.Endian = parse.LittleEndian
		if c.Big {
			c.Endian = parse.BigEndian
		}
	}
	return c
}

func checkP56(c p56Case, x *Ctx) error {
	want := c.want()
	data := c.bytes()
	x.NonTrivial(len(want) > 1)
	x.Label("system dependent", c.Minor > 0 && len(c.SysIDs) > 0)
	x.Label("shared strings", c.Share)
	x.Label("gaps", len(c.Gap) > 0 && len(c.Places) > 0)
	sorted := true
	for i := 1; i < len(c.IDs); i++ {
		sorted = sorted && moKey(c.IDs[i-1]) <= moKey(c.IDs[i])
	}
	x.Label("not sorted", !sorted)
	f, err := parse.MoFromBytes(append([]byte(nil), data...), "f.mo", parse.MoWithMustBeSorted(c.MustBe), parse.MoWithEndianness(c.Endian))
	if c.MustBe && !sorted {
		if err == nil {
			return fmt.Errorf("accepted although the file must be sorted, and is not: %q", c.IDs)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("not read: %v", err)
	}
	return diffEntries(f.Entries, want)
}

func init() {
	register("P56", 60000, 1500000,
		"0-5 (or many) messages in MO files of the harness's own writer: either byte order, revision 0 or 1, tables and strings in any order and place, with gaps and shared strings, with a hash table of any size or none, sorted or not, some with system dependent strings; non-trivial: at least two messages",
		drawP56, checkP56)
}
