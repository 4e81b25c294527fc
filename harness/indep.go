package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// Independent readers and writers of the PO and MO formats: nothing here uses the code under test
// (only its data types).

// --- PO -----------------------------------------------------------------

// readCanonicalPO reads PO text in the layout GNU gettext tools write (one keyword per line, each
// string line quoted, comments before the message).
func readCanonicalPO(s string) (po.Entries, error) {
	var out po.Entries
	var cur po.Entry
	var started, any bool
	var target *string
	var form *po.PluralEntry
	flush := func() {
		if form != nil {
			cur.Plurals = append(cur.Plurals, *form)
			form = nil
		}
		if started {
			out = append(out, cur)
		}
		cur, started, any, target = po.Entry{}, false, false, nil
	}
	for n, raw := range strings.Split(s, "\n") {
		line := raw
		fail := func(why string) error { return fmt.Errorf("line %d (%q): %s", n+1, raw, why) }
		if strings.TrimSpace(line) == "" {
			flush()
			continue
		}
		obsolete := false
		if strings.HasPrefix(line, "#~") {
			obsolete = true
			line = strings.TrimPrefix(strings.TrimPrefix(line, "#~"), " ")
			if strings.HasPrefix(line, "|") {
				line = "#" + line
			}
		}
		if strings.HasPrefix(line, "#") {
			if started {
				flush()
			}
			any = true
			rest := func(k int) string { return strings.TrimPrefix(line[k:], " ") }
			switch {
			case strings.HasPrefix(line, "#:"):
				for _, f := range strings.Fields(rest(2)) {
					l := po.Location{File: f, Line: -1}
					if i := strings.LastIndexByte(f, ':'); i > 0 {
						if k, err := strconv.ParseUint(f[i+1:], 10, 63); err == nil {
							l = po.Location{File: f[:i], Line: int(k)}
						}
					}
					cur.Locations = append(cur.Locations, l)
				}
			case strings.HasPrefix(line, "#."):
				cur.ExtractedComments = append(cur.ExtractedComments, rest(2))
			case strings.HasPrefix(line, "#,"):
				for _, f := range strings.Split(rest(2), ",") {
					cur.Flags = append(cur.Flags, strings.TrimSpace(f))
				}
			case strings.HasPrefix(line, "#|"):
				cur.Previous = append(cur.Previous, rest(2))
			default:
				cur.Comments = append(cur.Comments, rest(1))
			}
			continue
		}
		if obsolete {
			cur.Obsolete = true
		}
		kw := line
		if i := strings.IndexByte(line, '"'); i >= 0 {
			kw = strings.TrimSpace(line[:i])
			line = line[i:]
		} else {
			return nil, fail("no string")
		}
		str, err := unquoteC(line)
		if err != nil {
			return nil, fail(err.Error())
		}
		if kw != "" && form != nil {
			cur.Plurals = append(cur.Plurals, *form)
			form, target = nil, nil
		}
		switch {
		case kw == "":
			if target == nil {
				return nil, fail("stray string")
			}
			*target += str
			continue
		case kw == "msgctxt" || (kw == "msgid" && cur.Context == "" && started):
			if started {
				flush()
			}
			if kw == "msgctxt" {
				target = &cur.Context
			} else {
				target = &cur.ID
			}
			if obsolete {
				cur.Obsolete = true
			}
			if kw == "msgid" {
				started = true
			}
		case kw == "msgid":
			target, started = &cur.ID, true
		case kw == "msgid_plural":
			target = &cur.Plural
		case kw == "msgstr":
			target = &cur.Str
		case strings.HasPrefix(kw, "msgstr[") && strings.HasSuffix(kw, "]"):
			k, err := strconv.Atoi(kw[7 : len(kw)-1])
			if err != nil {
				return nil, fail("plural index")
			}
			form = &po.PluralEntry{ID: k}
			target = &form.Str
		default:
			return nil, fail("keyword " + kw)
		}
		*target += str
	}
	_ = any
	flush()
	return out, nil
}

// unquoteC decodes one C string literal.
func unquoteC(q string) (string, error) {
	q = strings.TrimRight(q, " \t\r")
	if len(q) < 2 || q[0] != '"' || q[len(q)-1] != '"' {
		return "", errors.New("not a quoted string")
	}
	q = q[1 : len(q)-1]
	var b strings.Builder
	for i := 0; i < len(q); i++ {
		c := q[i]
		if c == '"' {
			return "", errors.New("quote inside string")
		}
		if c != '\\' {
			b.WriteByte(c)
			continue
		}
		i++
		if i == len(q) {
			return "", errors.New("trailing backslash")
		}
		switch c = q[i]; c {
		case 'n':
			b.WriteByte('\n')
		case 't':
			b.WriteByte('\t')
		case 'r':
			b.WriteByte('\r')
		case 'a':
			b.WriteByte('\a')
		case 'b':
			b.WriteByte('\b')
		case 'f':
			b.WriteByte('\f')
		case 'v':
			b.WriteByte('\v')
		case '"', '\\':
			b.WriteByte(c)
		case 'x':
			j := i + 1
			for j < len(q) && strings.IndexByte("0123456789abcdefABCDEF", q[j]) >= 0 {
				j++
			}
			v, err := strconv.ParseUint(q[i+1:j], 16, 64)
			if err != nil {
				return "", err
			}
			b.WriteByte(byte(v))
			i = j - 1
		default:
			if c < '0' || c > '7' {
				return "", fmt.Errorf("escape \\%c", c)
			}
			v, j := 0, i
			for j < len(q) && j < i+3 && q[j] >= '0' && q[j] <= '7' {
				v = v*8 + int(q[j]-'0')
				j++
			}
			b.WriteByte(byte(v))
			i = j - 1
		}
	}
	return b.String(), nil
}

func quoteC(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\t':
			b.WriteString(`\t`)
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c < 32 || c == 127:
			fmt.Fprintf(&b, `\%03o`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// plainPO renders messages in the plainest layout.
func plainPO(es po.Entries) string {
	var b strings.Builder
	for _, e := range es {
		for _, c := range e.Comments {
			b.WriteString("# " + c + "\n")
		}
		for _, c := range e.ExtractedComments {
			b.WriteString("#. " + c + "\n")
		}
		for _, l := range e.Locations {
			if l.Line < 0 {
				fmt.Fprintf(&b, "#: %s\n", l.File)
				continue
			}
			fmt.Fprintf(&b, "#: %s:%d\n", l.File, l.Line)
		}
		if len(e.Flags) > 0 {
			b.WriteString("#, " + strings.Join(e.Flags, ", ") + "\n")
		}
		pre := ""
		if e.Obsolete {
			pre = "#~ "
		}
		for _, p := range e.Previous {
			b.WriteString(strings.TrimSuffix("#"+strings.TrimPrefix(strings.TrimSuffix(pre, " "), "#"), " ") + "| " + p + "\n")
		}
		w := func(kw, s string) { b.WriteString(pre + kw + " " + quoteC(s) + "\n") }
		if e.Context != "" {
			w("msgctxt", e.Context)
		}
		w("msgid", e.ID)
		if e.Plural != "" {
			w("msgid_plural", e.Plural)
			for _, p := range e.Plurals {
				w(fmt.Sprintf("msgstr[%d]", p.ID), p.Str)
			}
			if len(e.Plurals) == 0 {
				w("msgstr[0]", "")
				w("msgstr[1]", "")
			}
		} else {
			w("msgstr", e.Str)
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// --- MO -----------------------------------------------------------------

type moFile struct {
	order                     binary.ByteOrder
	n, orig, trans, hs, hoff  uint32
	ids, strs                 []string
	idOff, strOff             []uint32
	data                      []byte
	major, minor              uint16
	stringsStart, stringsStop uint32
}

func decodeMO(data []byte) (*moFile, error) {
	m := &moFile{data: data}
	if len(data) < 28 {
		return nil, errors.New("shorter than a header")
	}
	switch {
	case bytes.Equal(data[:4], []byte{0xde, 0x12, 0x04, 0x95}):
		m.order = binary.LittleEndian
	case bytes.Equal(data[:4], []byte{0x95, 0x04, 0x12, 0xde}):
		m.order = binary.BigEndian
	default:
		return nil, fmt.Errorf("magic number % x", data[:4])
	}
	u := func(off uint32) uint32 { return m.order.Uint32(data[off:]) }
	rev := u(4)
	m.major, m.minor = uint16(rev>>16), uint16(rev)
	if rev != 0 {
		return nil, fmt.Errorf("revision %#x", rev)
	}
	m.n, m.orig, m.trans, m.hs, m.hoff = u(8), u(12), u(16), u(20), u(24)
	size := uint64(len(data))
	if uint64(m.orig)+8*uint64(m.n) > size || uint64(m.trans)+8*uint64(m.n) > size {
		return nil, errors.New("string table outside the file")
	}
	if m.hs > 0 && uint64(m.hoff)+4*uint64(m.hs) > size {
		return nil, errors.New("hash table outside the file")
	}
	get := func(tab, i uint32) (string, uint32, error) {
		l, o := u(tab+8*i), u(tab+8*i+4)
		if uint64(l)+uint64(o) >= size {
			return "", 0, fmt.Errorf("string %d outside the file", i)
		}
		if data[o+l] != 0 {
			return "", 0, fmt.Errorf("string %d not followed by a zero byte", i)
		}
		return string(data[o : o+l]), o, nil
	}
	for i := uint32(0); i < m.n; i++ {
		id, off, err := get(m.orig, i)
		if err != nil {
			return nil, fmt.Errorf("original %w", err)
		}
		m.ids, m.idOff = append(m.ids, id), append(m.idOff, off)
		st, off, err := get(m.trans, i)
		if err != nil {
			return nil, fmt.Errorf("translated %w", err)
		}
		m.strs, m.strOff = append(m.strs, st), append(m.strOff, off)
	}
	return m, nil
}

// key is the part of a stored id that is looked up.
func moKey(id string) string {
	if i := strings.IndexByte(id, 0); i >= 0 {
		return id[:i]
	}
	return id
}

func lookupKey(e po.Entry) string {
	if e.Context != "" {
		return e.Context + "\x04" + e.ID
	}
	return e.ID
}

func moID(e po.Entry) string {
	if e.Plural != "" {
		return lookupKey(e) + "\x00" + e.Plural
	}
	return lookupKey(e)
}

func moStr(e po.Entry) string {
	if e.Plural == "" {
		return e.Str
	}
	ps := append(po.PluralEntries(nil), e.Plurals...)
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].ID < ps[j].ID })
	var ss []string
	for _, p := range ps {
		ss = append(ss, p.Str)
	}
	return strings.Join(ss, "\x00")
}

// hashString is hash_string of gettext's hash-string.c.
func hashString(s string) uint32 {
	var h uint32
	for i := 0; i < len(s); i++ {
		h <<= 4
		h += uint32(s[i])
		if g := h & (0xf << 28); g != 0 {
			h ^= g >> 24
			h ^= g
		}
	}
	return h
}

// binarySearch looks key up as gettext's dcigettext does without a hash table.
func (m *moFile) binarySearch(key string) (string, bool) {
	lo, hi := 0, int(m.n)
	for lo < hi {
		mid := (lo + hi) / 2
		switch c := strings.Compare(key, moKey(m.ids[mid])); {
		case c < 0:
			hi = mid
		case c > 0:
			lo = mid + 1
		default:
			return m.strs[mid], true
		}
	}
	return "", false
}

// hashLookup looks key up as gettext's dcigettext does with a hash table.
func (m *moFile) hashLookup(key string) (string, bool, error) {
	h := hashString(key)
	idx := h % m.hs
	incr := 1 + h%(m.hs-2)
	for steps := uint32(0); ; steps++ {
		if steps > 2*m.hs {
			return "", false, errors.New("hash lookup does not terminate")
		}
		n := m.order.Uint32(m.data[m.hoff+4*idx:])
		if n == 0 {
			return "", false, nil
		}
		if n > m.n {
			return "", false, fmt.Errorf("hash table names string %d of %d", n, m.n)
		}
		if moKey(m.ids[n-1]) == key {
			return m.strs[n-1], true, nil
		}
		if idx >= m.hs-incr {
			idx -= m.hs - incr
		} else {
			idx += incr
		}
	}
}

// encodeMO writes an MO file; ids must be sorted.
func encodeMO(order binary.ByteOrder, ids, strs []string) []byte {
	n := uint32(len(ids))
	head := 28 + 16*n
	buf := make([]byte, head)
	order.PutUint32(buf[0:], 0x950412de)
	order.PutUint32(buf[8:], n)
	order.PutUint32(buf[12:], 28)
	order.PutUint32(buf[16:], 28+8*n)
	order.PutUint32(buf[20:], 0)
	order.PutUint32(buf[24:], head)
	for k, ss := range [][]string{ids, strs} {
		for i, s := range ss {
			off := 28 + uint32(k)*8*n + 8*uint32(i)
			order.PutUint32(buf[off:], uint32(len(s)))
			order.PutUint32(buf[off+4:], uint32(len(buf)))
			buf = append(buf, s...)
			buf = append(buf, 0)
		}
	}
	return buf
}

// --- external tools -------------------------------------------------------

type toolResult struct {
	code           int
	stdout, stderr string
	killed         bool // by the CPU limit
}

// runTool runs a program with a CPU limit. Failing to run at all is a harness error.
func runTool(dir, stdin, name string, args ...string) toolResult {
	if !strings.Contains(name, "/") {
		name = filepath.Join("/usr/bin", name)
	}
	if _, err := os.Stat(name); err != nil {
		panic(harnessError{err})
	}
	cmd := exec.Command("/bin/sh", append([]string{"-c", `ulimit -t 20; exec "$0" "$@"`, name}, args...)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "COLORTERM=truecolor") // a terminal that has colours
	cmd.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(300 * time.Second):
		cmd.Process.Kill()
		<-done
		panic(harnessError{fmt.Errorf("%s did not end within 300 s of wall time", name)})
	}
	r := toolResult{stdout: o.String(), stderr: e.String()}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			panic(harnessError{err})
		}
		r.code = ee.ExitCode()
		if r.code == -1 || r.code == 137 || r.code == 152 {
			r.killed = true
		}
	}
	return r
}

// byUID indexes messages; a repeated identity is an error.
func byUID(es po.Entries) (map[string]po.Entry, error) {
	m := map[string]po.Entry{}
	for _, e := range es {
		if _, dup := m[uid(e)]; dup {
			return nil, fmt.Errorf("message occurs twice: %s", showEntry(e))
		}
		m[uid(e)] = e
	}
	return m, nil
}

// diffMaps compares two message sets by identity, after norm.
func diffMaps(got, want po.Entries, norm func(po.Entry) po.Entry) error {
	g, err := byUID(got)
	if err != nil {
		return err
	}
	w, err := byUID(want)
	if err != nil {
		return harnessError{err}
	}
	for _, e := range want {
		x, ok := g[uid(e)]
		if !ok {
			return fmt.Errorf("message missing: %s", showEntry(e))
		}
		if a, b := norm(x), norm(e); !sameEntry(a, b) {
			return fmt.Errorf("message differs in %s:\n got %s\nwant %s", diffFields(a, b), showEntry(a), showEntry(b))
		}
	}
	for _, e := range got {
		if _, ok := w[uid(e)]; !ok {
			return fmt.Errorf("unexpected message: %s", showEntry(e))
		}
	}
	return nil
}

func writeFile(dir, name, content string) string {
	p := filepath.Join(dir, name)
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	must(os.WriteFile(p, []byte(content), 0o644))
	return p
}

func readFile(p string) string {
	b, err := os.ReadFile(p)
	must(err)
	return string(b)
}

func exists(p string) bool {
	_, err := os.Lstat(p)
	return err == nil
}
