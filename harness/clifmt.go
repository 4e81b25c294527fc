package main

import (
	"encoding/binary"
	"fmt"
	"path/filepath"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"pgregory.net/rapid"
)

// --- P40: msgofmt ---------------------------------------------------------------------

type p40Case struct {
	Inv       invocation
	Inputs    []cliPO
	Out       string // where the MO file is to be, "-" for standard output
	OutInDir  string // with -D, it is below that directory
	Each      bool   // an MO file for each file of a directory
	Big, NoHT bool
	Bad       string // why the run must fail
}

// drawParts distributes messages with distinct ids over files.
func drawParts(t *rapid.T, o entryOpts, n int) []po.Entries {
	es := entries(t, o, 0, 3*n)
	parts := make([]po.Entries, n)
	for _, e := range es {
		i := intn(t, "part", 0, n-1)
		parts[i] = append(parts[i], e)
	}
	return parts
}

func drawP40(t *rapid.T) p40Case {
	var c p40Case
	o := cliOpts
	o.plainIDs = chance(t, "plain", 30)
	c.Each = chance(t, "whole directory", 20)
	dir := ""
	if c.Each || chance(t, "search directory", 20) {
		dir = oneOf(t, "dir", "cat", "a b", "ü/x", ".")
	}
	n := oneOf(t, "nfiles", 1, 1, 1, 2, 3)
	if c.Each && chance(t, "more files", 30) {
		n = intn(t, "nmore", 3, 6)
	}
	parts := drawParts(t, o, n)
	h := intn(t, "header in", 0, n)
	names := []string{"es.po", "b.po", oneOf(t, "oddname", "sub.dir.po", "a.po.po", "po.po", "x.pot.po", "é é.po", ".po.de.po"), "x.po", "a.po", "zz.po"}
	if !c.Each {
		names = []string{oneOf(t, "first name", "es.po", "es.po", "es.po", "stdin"), "sub/b.po", "ü.po", "other name.txt"}
	}
	for i, es := range parts {
		if i == h || c.Each && chance(t, "header", 50) {
			es = append(po.Entries{header()}, es...)
		}
		c.Inputs = append(c.Inputs, poFileOf(t, names[i], es))
	}
	if chance(t, "malformed", 12) || c.Each && chance(t, "malformed too", 25) {
		i := intn(t, "which", 0, n-1)
		switch k := intn(t, "how", 0, 2); {
		case k == 0:
			c.Bad, c.Inputs[i].Text = "an input is malformed", badPO(t)
		case k == 1 && len(c.Inputs[i].Entries) > 0: // twice
			e := canon(oneOf(t, "twice", c.Inputs[i].Entries...))
			e.Obsolete = false
			j := i
			if !c.Each {
				j = intn(t, "in", 0, n-1)
			}
			if f := c.Inputs[i].Entries; !has(f, func(e po.Entry) bool { return e.Obsolete }) {
				c.Bad = "a message is defined twice"
				c.Inputs[j].Text = strings.TrimRight(c.Inputs[j].Text, "\r\n \t") + "\n\n" + plainPO(po.Entries{e})
			}
		case !c.Each:
			c.Bad, c.Inputs[i].Name = "an input is missing", "missing.po"
		}
	}

	v := &c.Inv
	v.Tool = "msgofmt"
	c.Out = "messages.mo"
	if !c.Each && chance(t, "output", 80) {
		c.Out = oneOf(t, "out", "-", "out.mo", "o/out.mo", "with space.mo")
		if oneOf(t, "outlong", 0, 1) == 0 {
			v.Args = append(v.Args, "-o", c.Out)
		} else {
			v.Args = append(v.Args, "--output-file="+c.Out)
		}
	}
	if e := oneOf(t, "endian", "", "", "native", "little", "big", "big"); e != "" {
		c.Big = e == "big"
		v.Args = append(v.Args, "--endianness="+e)
	}
	if c.NoHT = chance(t, "nohash", 30); c.NoHT {
		v.Args = append(v.Args, "--no-hash")
	}
	if chance(t, "verbose", 8) {
		v.Args = append(v.Args, oneOf(t, "verboseflag", "-v", "--verbose"))
	}
	force := chance(t, "force", 30)
	if force {
		v.Args = append(v.Args, oneOf(t, "forceflag", "-f", "--force"))
	}
	if dir != "" {
		v.Args = append(v.Args, "-D", dir)
	}
	stdin := -1
	if !c.Each && chance(t, "stdin", 25) {
		stdin = intn(t, "nth", 0, n-1)
	}
	for i, in := range c.Inputs {
		switch {
		case i == stdin && in.Name != "missing.po":
			v.Stdin = []byte(in.Text)
			v.Args = append(v.Args, "-")
			continue
		case !c.Each:
			v.Args = append(v.Args, in.Name)
		}
		if in.Name != "missing.po" {
			v.Files = append(v.Files, cliFile{Path: filepath.Join(dir, in.Name), Data: []byte(in.Text)})
		}
	}
	v.linked(t)
	v.decoys(t, dir, "msgid \"decoy\"\nmsgstr \"x\"\n")
	if dir != "" { // things that are none of its business
		other := cliFile{Path: filepath.Join(dir, oneOf(t, "other", "notes.txt", "README", "x.pot", "y.po~", "po")), Data: []byte("nothing\n")}
		if chance(t, "other there", 40) {
			v.Files = append(v.Files, other)
		}
		if !c.Each && chance(t, "other catalog", 40) {
			v.Files = append(v.Files, cliFile{Path: filepath.Join(dir, "unasked.po"), Data: []byte("msgid \"unasked\"\nmsgstr \"x\"\n")})
		}
		if c.Each && chance(t, "subdirectory", 30) {
			v.Files = append(v.Files, cliFile{Path: filepath.Join(dir, "sub.po/inner.po"), Data: []byte("msgid \"inner\"\nmsgstr \"x\"\n")})
		}
	}
	if dir != "" && c.Out != "-" && !c.Each {
		c.OutInDir = filepath.Join(dir, c.Out)
	}
	for _, p := range []string{c.Out, c.OutInDir} {
		if p != "" && p != "-" {
			v.Files = append(v.Files, cliFile{Path: filepath.Dir(p), Dir: true})
		}
	}
	if c.OutInDir != "" && filepath.Clean(c.OutInDir) != filepath.Clean(c.Out) && chance(t, "elsewhere", 30) { // it does not matter
		v.Files = append(v.Files, cliFile{Path: c.Out, Data: []byte("elsewhere")})
	} else if !c.Each && c.Out != "-" && chance(t, "exists", 20) {
		for _, p := range []string{c.Out, c.OutInDir} {
			if p != "" {
				v.Files = append(v.Files, cliFile{Path: p, Data: []byte("what was there before, and is long enough to show if it is not cut off")})
			}
		}
		if !force && c.Bad == "" {
			c.Bad = "the output exists and may not be overwritten"
		}
	}
	if c.Each && chance(t, "exists", 15) {
		in := oneOf(t, "existing", c.Inputs...)
		v.Files = append(v.Files, cliFile{Path: filepath.Join(dir, strings.TrimSuffix(in.Name, ".po")+".mo"), Data: []byte("before")})
		if !force && c.Bad == "" {
			c.Bad = "exists"
		}
	}
	if c.Each {
		c.OutInDir = dir
	}
	return c
}

// finished are the messages that belong in an MO file.
func finished(es po.Entries) (r po.Entries) {
	for _, e := range es {
		if !e.Obsolete && !untranslated(e) && (!isFuzzy(e) || isHeader(e)) {
			r = append(r, e)
		}
	}
	return r
}

func (c p40Case) judge(b string, es po.Entries) error {
	m, err := decodeMO([]byte(b))
	if err != nil {
		return err
	}
	if (m.order == binary.BigEndian) != c.Big {
		return fmt.Errorf("the byte order is %v", m.order)
	}
	return checkMoTables([]byte(b), finished(es), nil, !c.NoHT)
}

func checkP40(c p40Case, x *Ctx) error {
	v := c.Inv
	dir := v.setup(x)
	before := snapshot(dir)
	r, err := v.run(x, dir)
	if err != nil {
		return err
	}
	n := 0
	for _, in := range c.Inputs {
		n += len(finished(in.Entries))
	}
	x.NonTrivial(c.Bad != "" || n > 0)
	x.Label("must fail", c.Bad != "")
	x.Label("several files", len(c.Inputs) > 1)
	x.Label("whole directory", c.Each)
	x.Label("standard output", c.Out == "-" && !c.Each)
	if c.Bad == "exists" {
		if r.code == 0 {
			return fmt.Errorf("%s overwrites a file without being told to", v)
		}
		after := snapshot(dir)
		for p := range before {
			if before[p] != after[p] {
				return fmt.Errorf("%s: %s changed", v, p)
			}
		}
		return nil
	}
	if c.Bad != "" {
		return refused(v, r, before, dir, c.Bad)
	}
	if err := ranWell(v, r); err != nil {
		return err
	}
	after := snapshot(dir)
	if c.Each {
		var outs []string
		for _, in := range c.Inputs {
			p := filepath.Join(c.OutInDir, strings.TrimSuffix(in.Name, ".po")+".mo")
			outs = append(outs, p)
			if !strings.HasPrefix(after[p], "file ") {
				return fmt.Errorf("%s does not write %s", v, p)
			}
			if err := c.judge(after[p][5:], in.Entries); err != nil {
				return fmt.Errorf("%s: %s: %v", v, p, err)
			}
		}
		if err := onlyChanged(before, after, outs...); err != nil {
			return fmt.Errorf("%s: %v", v, err)
		}
		return nil
	}
	var all po.Entries
	for _, in := range c.Inputs {
		all = append(all, in.Entries...)
	}
	out := r.stdout
	if c.Out == "-" {
		err = onlyChanged(before, after)
	} else {
		p := filepath.Clean(c.Out)
		if c.OutInDir != "" {
			p = filepath.Clean(c.OutInDir)
		}
		if err := onlyChanged(before, after, p); err != nil {
			return fmt.Errorf("%s: %v", v, err)
		}
		if !strings.HasPrefix(after[p], "file ") {
			return fmt.Errorf("%s does not write %s", v, p)
		}
		if r.stdout != "" {
			return fmt.Errorf("%s also writes to standard output: %s", v, cut(r.stdout, 300))
		}
		out = after[p][5:]
	}
	if err != nil {
		return fmt.Errorf("%s: %v", v, err)
	}
	if err := c.judge(out, all); err != nil {
		return fmt.Errorf("%s: %v", v, err)
	}
	return nil
}

// --- P41: msgounfmt -------------------------------------------------------------------

type p41Case struct {
	Inv    invocation
	Parts  []po.Entries
	Out    string
	Sort   bool
	View   poView
	Exists bool
	Twice  bool // a message is there twice, and that is to be ignored
	Bad    string
}

func drawP41(t *rapid.T) p41Case {
	var c p41Case
	v := &c.Inv
	v.Tool = "msgounfmt"
	n := oneOf(t, "nfiles", 1, 1, 1, 1, 2, 3)
	o := finishedOpts
	o.plainIDs = chance(t, "plain", 30)
	c.Parts = drawParts(t, o, n)
	h := intn(t, "header in", 0, n)
	stdin, noarg := -1, false
	if chance(t, "stdin", 30) {
		stdin = intn(t, "nth", 0, n-1)
		noarg = n == 1 && chance(t, "no argument", 50)
	}
	bad := -1
	if chance(t, "bad", 12) {
		bad = intn(t, "which", 0, n-1)
	}
	for i := range c.Parts {
		if i == h {
			c.Parts[i] = append(po.Entries{header()}, c.Parts[i]...)
		}
		c.Parts[i] = sortedByKey(c.Parts[i])
		stored := c.Parts[i]
		if k := intn(t, "twice", 0, 30); k < len(stored) && c.Bad == "" && bad < 0 {
			stored = append(append(append(po.Entries{}, stored[:k+1]...), stored[k]), stored[k+1:]...)
			if c.Twice = chance(t, "ignored", 50); !c.Twice {
				c.Bad = "a message is there twice"
			}
		}
		data := drawMOData(t, stored)
		name := fmt.Sprintf("%s%d%s", oneOf(t, "name", "m", "dir/m", "a b", "ü", "stdin", "%s"), i, oneOf(t, "ext", ".mo", ".gmo", ""))
		if n == 1 && intn(t, "odd name", 0, 999)%19 == 9 {
			name = oneOf(t, "odd names", "stdin", "input.mo", "stdout", "dir/-")
		}
		if i == bad {
			c.Bad, data, name = drawBadMO(t, data, name)
		}
		switch {
		case i == stdin && name != "missing.mo":
			v.Stdin = data
			if !noarg {
				v.Args = append(v.Args, "-")
			}
			continue
		case name != "missing.mo":
			v.Files = append(v.Files, cliFile{Path: name, Data: data})
		}
		v.Args = append(v.Args, name)
	}
	v.linked(t)
	c.Out = oneOf(t, "out", "", "-", "out.po", "o/out.po")
	force := chance(t, "force", 30)
	if force {
		v.Args = append(v.Args, oneOf(t, "forceflag", "-f", "--force-po"))
	}
	if c.Out != "" {
		v.Args = append(v.Args, oneOf(t, "outflag", "-o", "--output"), c.Out)
	}
	if c.Out == "" {
		c.Out = "-"
	}
	if c.Out != "-" {
		v.Files = append(v.Files, cliFile{Path: filepath.Dir(c.Out), Dir: true})
		if c.Exists = chance(t, "exists", 25); c.Exists {
			v.Files = append(v.Files, cliFile{Path: c.Out, Data: []byte(strings.Repeat("what was there before\n", 40))})
			if !force && c.Bad == "" {
				c.Bad = "the output exists and may not be overwritten"
			}
		}
	}
	if c.Twice || c.Bad == "" && chance(t, "ignore", 10) {
		v.Args = append(v.Args, "--ignore-errors")
	}
	if c.Sort = chance(t, "sort", 30); c.Sort {
		v.Args = append(v.Args, oneOf(t, "sortflag", "-s", "--sort-output"))
	}
	c.View = poView{NoWrap: chance(t, "nowrap", 40), Color: chance(t, "color", 15)}
	v.Args = append(v.Args, c.View.args()...)
	return c
}

// drawMOData renders sorted messages as an MO file.
func drawMOData(t *rapid.T, es po.Entries) []byte {
	var order binary.ByteOrder = binary.LittleEndian
	if chance(t, "big", 40) {
		order = binary.BigEndian
	}
	var ids, strs []string
	for _, e := range es {
		ids, strs = append(ids, moID(e)), append(strs, moStr(e))
	}
	return encodeMO(order, ids, strs)
}

// drawBadMO spoils an MO file.
func drawBadMO(t *rapid.T, data []byte, name string) (why string, bad []byte, newName string) {
	data = append([]byte(nil), data...)
	switch intn(t, "spoil", 0, 4) {
	case 0:
		return "an input is missing", data, "missing.mo"
	case 1:
		data[intn(t, "magic byte", 0, 3)] ^= 1
		return "the magic number is wrong", data, name
	case 2:
		return "the header is cut off", data[:intn(t, "len", 0, 27)], name
	case 3:
		return "this is no MO file", []byte("msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"c\"\nmsgstr \"d\"\n"), name
	}
	if len(data) <= 36 { // no messages
		return "the header is cut off", data[:20], name
	}
	return "the strings are cut off", data[:intn(t, "len", 28, len(data)-2)], name
}

func checkP41(c p41Case, x *Ctx) error {
	v := c.Inv
	dir := v.setup(x)
	before := snapshot(dir)
	r, err := v.run(x, dir)
	if err != nil {
		return err
	}
	var all po.Entries
	for _, p := range c.Parts {
		all = append(all, p...)
	}
	x.NonTrivial(c.Bad != "" || len(all) > 1)
	x.Label("must fail", c.Bad != "")
	x.Label("several files", len(c.Parts) > 1)
	x.Label("standard input", len(v.Stdin) > 0)
	if c.Bad != "" {
		return refused(v, r, before, dir, c.Bad)
	}
	if err := ranWell(v, r); err != nil {
		return err
	}
	after := snapshot(dir)
	out := r.stdout
	if c.Out == "-" {
		err = onlyChanged(before, after)
	} else {
		out = strings.TrimPrefix(after[c.Out], "file ")
		if r.stdout != "" {
			return fmt.Errorf("%s also writes to standard output: %s", v, cut(r.stdout, 300))
		}
		err = onlyChanged(before, after, c.Out)
	}
	if err != nil {
		return fmt.Errorf("%s: %v", v, err)
	}
	if out, err = c.View.plain(out); err != nil {
		return fmt.Errorf("%s: %v", v, err)
	}
	got, err := readOutput(v, out)
	if err != nil {
		return err
	}
	if err := c.View.wrapped(out); err != nil {
		return fmt.Errorf("%s: %v", v, err)
	}
	if c.Twice {
		x.Label("a message is there twice", true)
		if err := sameSet(distinct(got), moParts(all)); err != nil {
			return fmt.Errorf("%s: %v", v, err)
		}
		return nil
	}
	if c.Sort {
		want := sortedByKey(moParts(all))
		if err := diffEntries(got, want); err != nil {
			return fmt.Errorf("%s: %v", v, err)
		}
	} else if err := diffEntries(got, moParts(all)); err != nil {
		return fmt.Errorf("%s: %v", v, err)
	}
	// and back
	if len(all) == 0 {
		return nil
	}
	b := invocation{Tool: "msgofmt", Args: []string{"-", "-o", "-"}, Stdin: []byte(out)}
	_, r, err = b.start(x)
	if err == nil {
		err = ranWell(b, r)
	}
	if err == nil {
		err = checkMoTables([]byte(r.stdout), all, nil, true)
	}
	if err != nil {
		return fmt.Errorf("compiling the output of %s again: %v", v, err)
	}
	return nil
}

func init() {
	register("P40", 6000, 60000, "one to three PO files with all kinds of messages, given as arguments, on standard input or as all of a directory, all options, existing outputs, and malformed, missing or doubly defined inputs; non-trivial: a finished message, or a run that must fail", drawP40, checkP40)
	register("P41", 6000, 60000, "one to three MO files of finished messages (written by the harness), as arguments or on standard input, all options, existing outputs, and missing, foreign and cut off files; non-trivial: two messages, or a run that must fail", drawP41, checkP41)
}
