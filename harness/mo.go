package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"sort"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
	"pgregory.net/rapid"
)

var finishedOpts = entryOpts{plural: true, context: true}

// moEntries draws finished messages for an MO file.
func moEntries(t *rapid.T, min, max int) po.Entries {
	es := enlarge(t, entries(t, finishedOpts, min, max), true)
	for i := range es {
		e := &es[i]
		if e.Context != "" && chance(t, "eot in id", 10) {
			e.ID += "\x04" + oneOf(t, "aftereot", "", "x", "a")
		}
		if e.Plural == "" && chance(t, "eot in str", 3) {
			e.Str += "\x04"
		}
	}
	// keys must stay distinct
	seen := map[string]bool{}
	var out po.Entries
	for _, e := range es {
		if !seen[lookupKey(e)] {
			seen[lookupKey(e)] = true
			out = append(out, e)
		}
	}
	return out
}

func sortedByKey(es po.Entries) po.Entries {
	r := clone(es)
	sort.SliceStable(r, func(i, j int) bool { return lookupKey(r[i]) < lookupKey(r[j]) })
	return r
}

// moPart keeps the fields an MO file stores.
func moPart(e po.Entry) po.Entry {
	r := po.Entry{ID: e.ID, Context: e.Context, Plural: e.Plural, Str: e.Str}
	r.Plurals = append(r.Plurals, e.Plurals...)
	sort.SliceStable(r.Plurals, func(i, j int) bool { return r.Plurals[i].ID < r.Plurals[j].ID })
	if r.Plural != "" {
		r.Str = ""
	}
	return r
}

func moParts(es po.Entries) po.Entries {
	var r po.Entries
	for _, e := range es {
		r = append(r, moPart(e))
	}
	return r
}

type moCase struct {
	Header  bool
	Endian  compile.Endianness
	NoHash  bool
	Entries po.Entries
	Shuffle bool // the plural forms are not listed in the order of their numbers
	Order   int  // but in this one, or backwards if it is 0
	Crowd   int  // number of plain messages besides
}

func (c moCase) all() po.Entries {
	es := crowd(clone(c.Entries), c.Crowd)
	if c.Header {
		es = append(po.Entries{header()}, es...)
	}
	if c.Shuffle {
		for _, e := range es {
			permuteForms(e.Plurals, c.Order)
		}
	}
	return es
}

// permuteForms brings a list into the k-th order (backwards for 0).
func permuteForms(p po.PluralEntries, k int) {
	if k == 0 {
		for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
			p[i], p[j] = p[j], p[i]
		}
		return
	}
	for i := len(p) - 1; i > 0; i-- {
		j := k % (i + 1)
		k /= i + 1
		p[i], p[j] = p[j], p[i]
	}
}

func (c moCase) opts() []compile.MoOption {
	return []compile.MoOption{compile.MoWithEndianness(c.Endian), compile.MoWithHashTable(!c.NoHash)}
}

func (c moCase) label(x *Ctx) {
	x.Label("big endian", c.Endian == compile.BigEndian)
	x.Label("no hash table", c.NoHash)
	x.Label("plural forms out of order", c.Shuffle && has(c.Entries, func(e po.Entry) bool { return len(e.Plurals) > 1 }))
	x.Label("plural", has(c.Entries, func(e po.Entry) bool { return e.Plural != "" }))
	x.Label("context", has(c.Entries, func(e po.Entry) bool { return e.Context != "" }))
	x.Label("10 or more messages", len(c.Entries) >= 10)
	x.Label("unusual size", has(c.Entries, unusual))
	x.Label("100 or more messages", c.Crowd > 0)
}

func drawMo(t *rapid.T, max int) moCase {
	c := moCase{Header: chance(t, "header", 60), NoHash: chance(t, "nohash", 30), Shuffle: chance(t, "shuffle", 15), Crowd: crowdSize(t)}
	if c.Shuffle {
		c.Order = intn(t, "order", 0, 719)
	}
	c.Endian = oneOf(t, "endian", compile.NativeEndian, compile.LittleEndian, compile.BigEndian)
	c.Entries = moEntries(t, 0, max)
	if len(c.Entries) > 0 && chance(t, "many", 10) {
		for i := intn(t, "extra", 1, 60); i > 0; i-- {
			e := po.Entry{ID: fmt.Sprintf("%s%d", oneOf(t, "stem", "m", "", "long message number "), i), Str: "t"}
			c.Entries = append(c.Entries, e)
		}
		seen := map[string]bool{}
		var out po.Entries
		for _, e := range c.Entries {
			if !seen[lookupKey(e)] {
				seen[lookupKey(e)] = true
				out = append(out, e)
			}
		}
		c.Entries = out
	}
	return c
}

const moRule = "0-6 (sometimes up to 66) finished messages in random order (and plural forms in any order) with adversarial text, byte order and hash table choice; non-trivial: at least 2 messages, or a plural, a context or special text"

func (c moCase) nontrivial() bool {
	return len(c.Entries) >= 2 || anySpecial(c.Entries) || has(c.Entries, func(e po.Entry) bool { return e.Plural != "" || e.Context != "" })
}

func init() {
	register("P06", 100000, 2000000, moRule,
		func(t *rapid.T) moCase { return drawMo(t, 6) },
		func(c moCase, x *Ctx) error {
			x.NonTrivial(c.nontrivial())
			c.label(x)
			b := compile.MoToBytes(c.all(), c.opts()...)
			f, err := parse.MoFromBytes(b, "rt.mo")
			if err != nil {
				return fmt.Errorf("not read back: %v", err)
			}
			return diffEntries(f.Entries, moParts(sortedByKey(c.all())))
		})

	register("P07", 80000, 1600000, moRule+"; ids not in the file are derived from those in it",
		func(t *rapid.T) p07Case {
			c := p07Case{moCase: drawMo(t, 8)}
			for i := 0; i < 6; i++ {
				k := text(t, "absent")
				if len(c.Entries) > 0 && chance(t, "derived", 70) {
					e := oneOf(t, "from", c.Entries...)
					switch intn(t, "how", 0, 6) {
					case 0:
						k = e.ID + "x"
					case 1:
						k = strings.ToUpper(e.ID)
					case 2:
						k = e.Plural
					case 3:
						k = e.Context + "\x04"
					case 4:
						k = e.ID + "\x04" + e.ID
					case 5:
						k = e.ID
					case 6:
						k = e.ID[:len(e.ID)/2]
					}
				}
				c.Absent = append(c.Absent, []byte(k))
			}
			return c
		},
		func(c p07Case, x *Ctx) error {
			x.NonTrivial(c.nontrivial())
			c.label(x)
			es := c.all()
			b := compile.MoToBytes(clone(es), c.opts()...)
			return checkMoTables(b, es, c.Absent, !c.NoHash)
		})

	register("P08", 8000, 160000,
		"a header and 0-6 finished messages; library MO read by msgunfmt, msgfmt MO (byte order, hash table, alignment options) read by the library; non-trivial: at least one plural, context or special text",
		func(t *rapid.T) p08Case {
			c := p08Case{moCase: drawMo(t, 6)}
			c.Header = true
			for i := range c.Entries {
				// msgfmt wants all strings of a message to agree on newlines at their ends
				fit := func(s string) string {
					if s = strings.Trim(strings.ReplaceAll(s, "\x04", ""), "\n"); s == "" {
						s = "x"
					}
					return s
				}
				e := &c.Entries[i]
				e.ID, e.Context = fit(e.ID), strings.ReplaceAll(e.Context, "\x04", "")
				if e.Plural == "" {
					e.Str = fit(e.Str)
				} else {
					e.Plural = fit(e.Plural)
				}
				for j := range e.Plurals {
					e.Plurals[j].Str = fit(e.Plurals[j].Str)
				}
			}
			seen := map[string]bool{"": true}
			var out po.Entries
			for _, e := range c.Entries {
				if !seen[lookupKey(e)] {
					seen[lookupKey(e)] = true
					out = append(out, e)
				}
			}
			c.Entries = out
			c.FromGNU = rapid.Bool().Draw(t, "fromgnu")
			c.Shuffle = c.Shuffle && !c.FromGNU // msgfmt wants them in order
			c.Align = oneOf(t, "align", 1, 1, 4, 16)
			if c.FromGNU && chance(t, "sysdep", 25) {
				c.Sysdep = drawSysdep(t)
			}
			return c
		},
		func(c p08Case, x *Ctx) error {
			x.NonTrivial(anySpecial(c.Entries) || has(c.Entries, func(e po.Entry) bool { return e.Plural != "" || e.Context != "" }))
			c.label(x)
			x.Label("msgfmt to library", c.FromGNU)
			x.Label("library to msgunfmt", !c.FromGNU)
			es := c.all()
			dir := x.Dir()
			if c.FromGNU {
				args := []string{"-o", "x.mo", fmt.Sprintf("--alignment=%d", c.Align)}
				if c.Endian == compile.BigEndian {
					args = append(args, "--endianness=big")
				}
				if c.NoHash {
					args = append(args, "--no-hash")
				}
				x.Label("system dependent strings", len(c.Sysdep) > 0)
				in := plainPO(append(es[:len(es):len(es)], c.Sysdep...))
				r := runTool(dir, in, "msgfmt", append(args, "-")...)
				if r.code != 0 {
					must(fmt.Errorf("msgfmt: %s\n%s", r.stderr, in))
				}
				f, err := parse.Mo(dir + "/x.mo")
				if err != nil {
					return fmt.Errorf("library does not read msgfmt output: %v", err)
				}
				if len(c.Sysdep) > 0 {
					return diffMaps(f.Entries, moParts(append(es[:len(es):len(es)], c.Sysdep...)), moPart)
				}
				return diffEntries(f.Entries, moParts(sortedByKey(es)))
			}
			b := compile.MoToBytes(clone(es), c.opts()...)
			writeFile(dir, "x.mo", string(b))
			r := runTool(dir, "", "msgunfmt", "--force-po", "--no-wrap", "x.mo")
			if r.code != 0 {
				return fmt.Errorf("msgunfmt exits %d: %s", r.code, r.stderr)
			}
			got, err := readCanonicalPO(r.stdout)
			must(err)
			return diffMaps(got, moParts(es), moPart)
		})

	register("P09", 100000, 2000000,
		"valid MO files (library or harness layout) truncated, with all translations in one overlapping string, with header words, table words or bytes replaced by extreme or random values, and arbitrary bytes after a valid magic; non-trivial: at least a whole header",
		func(t *rapid.T) p09Case {
			c := p09Case{Endian: oneOf(t, "endian", parse.NativeEndian, parse.NativeEndian, parse.LittleEndian, parse.BigEndian), Sorted: chance(t, "sorted", 20)}
			if chance(t, "arbitrary", 15) {
				c.Kind = "arbitrary"
				c.Data = rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(t, "bytes")
				if chance(t, "magic", 70) {
					c.Data = append([]byte(oneOf(t, "m", "\xde\x12\x04\x95", "\x95\x04\x12\xde")+"\x00\x00\x00\x00"), c.Data...)
				}
				return c
			}
			if k := intn(t, "overlap", 0, 999); k%211 == 105 { // all messages share one string full of separators
				c.Kind = "overlapping strings"
				n, size := intn(t, "messages", 2, 400), intn(t, "separators", 1, 60000)
				if c.Data = overlapping(n, size, chance(t, "ids", 30)); chance(t, "system dependent", 40) {
					c.Data = overlappingSysdep(n, size, intn(t, "segments", 1, 40))
				}
				return c
			}
			m := drawMo(t, 4)
			var order binary.ByteOrder = binary.LittleEndian
			if m.Endian == compile.BigEndian {
				order = binary.BigEndian
			}
			if chance(t, "any layout", 25) {
				p := drawP56(t)
				if order = binary.LittleEndian; p.Big {
					order = binary.BigEndian
				}
				c.Data = p.bytes()
			} else if chance(t, "own layout", 40) {
				es := sortedByKey(m.all())
				var ids, strs []string
				for _, e := range es {
					ids, strs = append(ids, moID(e)), append(strs, moStr(e))
				}
				c.Data = encodeMO(order, ids, strs)
			} else {
				c.Data = compile.MoToBytes(m.all(), m.opts()...)
			}
			c.Kind = "mutated"
			for i := intn(t, "edits", 0, 4); i > 0; i-- {
				switch intn(t, "edit", 0, 4) {
				case 0: // truncation
					c.Kind = "truncated"
					c.Data = c.Data[:intn(t, "len", 0, len(c.Data))]
				case 1, 2: // a word
					words := len(c.Data) / 4
					if words == 0 {
						continue
					}
					w := intn(t, "word", 0, words-1)
					if chance(t, "head", 60) && words > 12 {
						w = intn(t, "hword", 1, 11)
					}
					v := oneOf(t, "value", 0, 1, 2, 3, 4, 8, 27, 28, 29, 0x10000, 0x20000, 0x30001, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 0xffffff00, uint32(len(c.Data)), uint32(len(c.Data)-1), uint32(len(c.Data)+1), 0x20000000, 0x1fffffff)
					if chance(t, "off", 30) {
						v = order.Uint32(c.Data[4*w:]) + uint32(intn(t, "delta", -8, 8))
					}
					order.PutUint32(c.Data[4*w:], v)
				case 3:
					if len(c.Data) > 0 {
						c.Data[intn(t, "pos", 0, len(c.Data)-1)] = byte(intn(t, "byte", 0, 255))
					}
				case 4:
					c.Data = append(c.Data, rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "tail")...)
				}
			}
			return c
		},
		checkP09)

	register("P10", 80000, 1600000,
		"0-8 messages: finished, fuzzy, obsolete, untranslated, repeated ids, header possibly fuzzy or not first; non-trivial: at least one message must be left out and one kept",
		func(t *rapid.T) p10Case {
			o := allOpts
			c := p10Case{}
			n := intn(t, "n", 0, 8)
			for i := 0; i < n; i++ {
				if len(c.Entries) > 0 && chance(t, "repeat", 25) {
					e := canon(oneOf(t, "which", c.Entries...))
					if e.ID == "" {
						continue
					}
					if chance(t, "retranslate", 60) && e.Plural == "" {
						e.Str = text(t, "str2")
					}
					e.Obsolete = chance(t, "obs2", 30)
					e.Flags = without(e.Flags, "fuzzy")
					if chance(t, "fuzzy2", 30) {
						e.Flags = append(e.Flags, "fuzzy")
					}
					c.Entries = append(c.Entries, e)
					continue
				}
				c.Entries = append(c.Entries, genEntry(t, o))
			}
			if chance(t, "header", 60) {
				h := header()
				if chance(t, "fuzzyheader", 30) {
					h.Flags = []string{"fuzzy"}
				}
				p := intn(t, "hpos", 0, len(c.Entries))
				c.Entries = append(c.Entries[:p:p], append(po.Entries{h}, c.Entries[p:]...)...)
			}
			c.NoHash = chance(t, "nohash", 30)
			return c
		},
		func(c p10Case, x *Ctx) error {
			want := map[string][]string{} // key -> acceptable values
			var order []string
			out := 0
			for _, e := range c.Entries {
				if e.Obsolete || untranslated(e) || (isFuzzy(e) && !(e.ID == "" && e.Context == "")) {
					out++
					continue
				}
				k := lookupKey(e)
				if _, ok := want[k]; !ok {
					order = append(order, k)
				}
				want[k] = append(want[k], moID(e)+"\x00\x00=>"+moStr(e))
			}
			x.NonTrivial(out > 0 && len(want) > 0)
			x.Label("left out", out > 0)
			x.Label("repeated finished id", has(c.Entries, func(e po.Entry) bool { return len(want[lookupKey(e)]) > 1 }))
			b := compile.MoToBytes(clone(c.Entries), compile.MoWithHashTable(!c.NoHash))
			m, err := decodeMO(b)
			if err != nil {
				return err
			}
			got := map[string]bool{}
			for i, id := range m.ids {
				k := moKey(id)
				if got[k] {
					return fmt.Errorf("id %q stored twice", k)
				}
				got[k] = true
				v, ok := want[k]
				if !ok {
					return fmt.Errorf("message %q must not be stored (translation %q)", id, m.strs[i])
				}
				if !contains(v, id+"\x00\x00=>"+m.strs[i]) {
					return fmt.Errorf("message %q stored as %q, no finished definition says that (%q)", id, m.strs[i], v)
				}
			}
			for _, k := range order {
				if !got[k] {
					return fmt.Errorf("finished message %q is not stored", k)
				}
			}
			return nil
		})

	register("P11", 60000, 1200000,
		"0-6 finished messages in both byte orders, read with each reader setting, and a magic number of neither order; non-trivial: at least one message",
		func(t *rapid.T) p11Case {
			c := p11Case{moCase: drawMo(t, 6), BadMagic: uint32(rapid.Uint32().Draw(t, "magic"))}
			if chance(t, "flip", 50) {
				c.BadMagic = 0x950412de ^ (1 << intn(t, "bit", 0, 31))
			}
			return c
		},
		checkP11)
}

type p07Case struct {
	moCase
	Absent [][]byte
}

type p08Case struct {
	moCase
	FromGNU bool
	Align   int
	Sysdep  po.Entries // with strings that msgfmt makes system dependent
}

// drawSysdep draws messages with macros of <inttypes.h> in their formats.
func drawSysdep(t *rapid.T) (es po.Entries) {
	str := func(flag bool) string {
		var b strings.Builder
		for k := intn(t, "parts", 1, 3); k > 0; k-- {
			b.WriteString(oneOf(t, "part", "a", "<PRIu64>", "%%", "of ", "é", "x\n\t", "%s", "%5.2f "))
			b.WriteString(oneOf(t, "macro", "%<PRIu64>", "%<PRId64>", "%<PRIuMAX>", "%-5<PRIxPTR>", "%<PRIdLEAST64>"))
			if flag && chance(t, "flag", 30) {
				b.WriteString("%Id")
			}
		}
		return b.String() + "."
	}
	for i, n := 0, intn(t, "sysdep", 1, 3); i < n; i++ {
		e := po.Entry{ID: fmt.Sprintf("%d ", i) + str(false), Str: str(true), Flags: []string{"c-format"}}
		if chance(t, "context", 30) {
			e.Context = "sys"
		}
		if chance(t, "plural", 30) {
			e.Plural, e.Str = str(false), ""
			for k := intn(t, "forms", 1, 3); k > 0; k-- {
				e.Plurals = append(e.Plurals, po.PluralEntry{ID: len(e.Plurals), Str: oneOf(t, "form", "none.", str(true))})
			}
		}
		es = append(es, e)
	}
	return es
}

type p09Case struct {
	Data   []byte
	Endian parse.Endianness
	Sorted bool
	Kind   string
}

type p10Case struct {
	Entries po.Entries
	NoHash  bool
}

type p11Case struct {
	moCase
	BadMagic uint32
}

// checkMoTables validates the structure of an MO file and both lookups.
func checkMoTables(b []byte, es po.Entries, absent [][]byte, hash bool) error {
	m, err := decodeMO(b)
	if err != nil {
		return err
	}
	if int(m.n) != len(es) {
		return fmt.Errorf("%d strings stored for %d messages", m.n, len(es))
	}
	for i := 1; i < len(m.ids); i++ {
		if moKey(m.ids[i-1]) >= moKey(m.ids[i]) {
			return fmt.Errorf("ids not sorted: %q before %q", m.ids[i-1], m.ids[i])
		}
	}
	if hash && m.hs < 3 {
		return fmt.Errorf("hash table of %d slots", m.hs)
	}
	if !hash && m.hs != 0 {
		return fmt.Errorf("hash table of %d slots although none was asked for", m.hs)
	}
	look := func(key string) (string, bool, error) {
		s, ok := m.binarySearch(key)
		if m.hs > 2 {
			s2, ok2, err := m.hashLookup(key)
			if err != nil {
				return "", false, fmt.Errorf("looking up %q: %v", key, err)
			}
			if s2 != s || ok2 != ok {
				return "", false, fmt.Errorf("looking up %q: binary search gives %q (%v), hash table %q (%v)", key, s, ok, s2, ok2)
			}
		}
		return s, ok, nil
	}
	stored := map[string]string{}
	for _, e := range es {
		stored[lookupKey(e)] = moStr(e)
	}
	for k, v := range stored {
		s, ok, err := look(k)
		if err != nil {
			return err
		}
		if !ok || s != v {
			return fmt.Errorf("looking up %q gives %q (%v), want %q", k, s, ok, v)
		}
	}
	for _, a := range absent {
		if _, ok := stored[string(a)]; ok {
			continue
		}
		s, ok, err := look(string(a))
		if err != nil {
			return err
		}
		if ok {
			return fmt.Errorf("looking up %q, which is not stored, gives %q", a, s)
		}
	}
	ids := map[string]bool{}
	for _, id := range m.ids {
		ids[id] = true
	}
	for _, e := range es { // the stored id carries the plural id
		if !ids[moID(e)] {
			return fmt.Errorf("id %q not stored as such", moID(e))
		}
	}
	return nil
}

// moOutside tells whether tables or strings of a file with a valid magic number reach outside it.
func moOutside(b []byte, order binary.ByteOrder) bool {
	if len(b) < 28 {
		return true
	}
	u := func(off uint64) uint64 { return uint64(order.Uint32(b[off:])) }
	n, size := u(8), uint64(len(b))
	for _, tab := range []uint64{u(12), u(16)} {
		if tab+8*n > size {
			return true
		}
		for i := uint64(0); i < n; i++ {
			if u(tab+8*i)+u(tab+8*i+4) > size {
				return true
			}
		}
	}
	return false
}

// overlapping makes an MO file of n messages whose translations (or ids) are one string of NUL bytes.
// overlappingSysdep has n messages that all consist of the same system dependent string
// of the given number of segments, which has size separators.
func overlappingSysdep(n, size, segments int) []byte {
	o := binary.LittleEndian
	names, table := 48, 48+8
	desc := table + 8*n
	static := desc + 4 + 8*segments
	b := make([]byte, static+size+2)
	for i, v := range []uint32{0x950412de, 1, 0, 48, 48, 0, 48, 1, uint32(names), uint32(n), uint32(table), uint32(table + 4*n)} {
		o.PutUint32(b[4*i:], v)
	}
	o.PutUint32(b[names:], uint32(size+2))
	o.PutUint32(b[names+4:], uint32(static))
	for i := 0; i < 2*n; i++ {
		o.PutUint32(b[table+4*i:], uint32(desc))
	}
	o.PutUint32(b[desc:], uint32(static))
	for i := 0; i < segments; i++ {
		l, ref := size/segments, uint32(0)
		if i == segments-1 {
			l, ref = size%segments+1, 0xffffffff
		}
		o.PutUint32(b[desc+4+8*i:], uint32(l))
		o.PutUint32(b[desc+8+8*i:], ref)
	}
	return b
}

func overlapping(n, size int, ids bool) []byte {
	o := binary.LittleEndian
	head := 28 + 16*n
	b := make([]byte, head+2*n+size+1)
	for i, v := range []uint32{0x950412de, 0, uint32(n), 28, uint32(28 + 8*n), 0, uint32(head)} {
		o.PutUint32(b[4*i:], v)
	}
	for i := 0; i < n; i++ {
		own, shared := 28+8*i, 28+8*n+8*i
		if ids {
			own, shared = shared, own
		}
		b[head+2*i] = byte('A' + i%50)
		o.PutUint32(b[own:], 1)
		o.PutUint32(b[own+4:], uint32(head+2*i))
		o.PutUint32(b[shared:], uint32(size))
		o.PutUint32(b[shared+4:], uint32(head+2*n))
	}
	return b
}

func checkP09(c p09Case, x *Ctx) error {
	x.NonTrivial(len(c.Data) >= 28)
	x.Label(c.Kind, true)
	read := func() (*po.File, error) {
		return parse.MoFromBytes(append([]byte(nil), c.Data...), "fuzz.mo", parse.MoWithEndianness(c.Endian), parse.MoWithMustBeSorted(c.Sorted))
	}
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	f, err := read()
	runtime.ReadMemStats(&after)
	if a := after.TotalAlloc - before.TotalAlloc; a > 1<<20+uint64(len(c.Data))*1000 {
		return fmt.Errorf("%d bytes allocated to read %d bytes", a, len(c.Data))
	}
	x.Label("accepted", err == nil)
	x.Label("rejected", err != nil)
	if f == nil && err == nil {
		return fmt.Errorf("neither a catalog nor an error")
	}
	if err != nil {
		return nil
	}
	order := binary.ByteOrder(binary.LittleEndian)
	switch {
	case bytes.HasPrefix(c.Data, []byte{0xde, 0x12, 0x04, 0x95}):
	case bytes.HasPrefix(c.Data, []byte{0x95, 0x04, 0x12, 0xde}):
		order = binary.BigEndian
	default:
		return fmt.Errorf("accepted although the magic number is wrong")
	}
	if v := order.Uint32(c.Data[4:]) >> 16; v > 1 {
		return fmt.Errorf("accepted although it is in version %d of the format", v)
	}
	if moOutside(c.Data, order) {
		return fmt.Errorf("accepted (%d messages) although tables or strings reach outside the file of %d bytes", len(f.Entries), len(c.Data))
	}
	f2, err2 := read()
	if err2 != nil {
		return fmt.Errorf("read once, then: %v", err2)
	}
	return diffEntries(f2.Entries, f.Entries)
}

func checkP11(c p11Case, x *Ctx) error {
	x.NonTrivial(len(c.Entries) > 0)
	c.label(x)
	es := c.all()
	le := compile.MoToBytes(clone(es), compile.MoWithEndianness(compile.LittleEndian), compile.MoWithHashTable(!c.NoHash))
	be := compile.MoToBytes(clone(es), compile.MoWithEndianness(compile.BigEndian), compile.MoWithHashTable(!c.NoHash))
	ml, err := decodeMO(le)
	if err != nil {
		return fmt.Errorf("little endian: %v", err)
	}
	mb, err := decodeMO(be)
	if err != nil {
		return fmt.Errorf("big endian: %v", err)
	}
	if ml.order != binary.ByteOrder(binary.LittleEndian) || mb.order != binary.ByteOrder(binary.BigEndian) {
		return fmt.Errorf("asked for little and big endian, got %v and %v", ml.order, mb.order)
	}
	// swap the integers of one and compare
	sw := append([]byte(nil), le...)
	end := uint32(len(sw))
	for _, off := range append(append([]uint32(nil), ml.idOff...), ml.strOff...) {
		if off < end {
			end = off
		}
	}
	if ml.n == 0 {
		end = 28 + 4*ml.hs
	}
	for i := uint32(0); i+4 <= end; i += 4 {
		sw[i], sw[i+1], sw[i+2], sw[i+3] = sw[i+3], sw[i+2], sw[i+1], sw[i]
	}
	if !bytes.Equal(sw, be) {
		return fmt.Errorf("the two byte orders differ in more than the order of integers")
	}
	want := moParts(sortedByKey(es))
	type rd struct {
		data []byte
		e    parse.Endianness
		ok   bool
	}
	for _, r := range []rd{
		{le, parse.NativeEndian, true}, {be, parse.NativeEndian, true}, {le, parse.LittleEndian, true}, {be, parse.BigEndian, true},
		{le, parse.BigEndian, false}, {be, parse.LittleEndian, false},
	} {
		f, err := parse.MoFromBytes(r.data, "x.mo", parse.MoWithEndianness(r.e))
		if (err == nil) != r.ok {
			return fmt.Errorf("reading a file of order %v with setting %v: error %v", r.data[:4], r.e, err)
		}
		if r.ok {
			if err := diffEntries(f.Entries, want); err != nil {
				return fmt.Errorf("setting %v: %v", r.e, err)
			}
		}
	}
	f, err := parse.MoFromBytes(le, "x.mo")
	if err != nil {
		return fmt.Errorf("default settings: %v", err)
	}
	if err := diffEntries(f.Entries, want); err != nil {
		return err
	}
	if c.BadMagic != 0x950412de && c.BadMagic != 0xde120495 {
		bad := append([]byte(nil), le...)
		binary.LittleEndian.PutUint32(bad, c.BadMagic)
		for _, e := range []parse.Endianness{parse.NativeEndian, parse.LittleEndian, parse.BigEndian} {
			if _, err := parse.MoFromBytes(bad, "x.mo", parse.MoWithEndianness(e)); err == nil {
				return fmt.Errorf("magic number %#x accepted", c.BadMagic)
			}
		}
	}
	return nil
}
