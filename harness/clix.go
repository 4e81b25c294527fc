package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"pgregory.net/rapid"
)

// --- P44, P47: xgotext ----------------------------------------------------------------

type xCase struct {
	Inv      invocation
	Read     []goFile // what is read; Name is the path, "" for standard input
	All      bool
	ExclPO   po.Entries
	Bad      string
	Header   map[string]string // fields that are asked for
	Omit     bool
	Prefix   string
	Suffix   string
	View     poView
	Out      string // path of the output file, "" for standard output
	Join     bool
	Existing po.Entries // of the file that is joined with
	NoFile   bool
}

func drawX(t *rapid.T, join bool) xCase {
	c := xCase{Join: join, Header: map[string]string{}}
	v := &c.Inv
	v.Tool = "xgotext"
	dir := oneOf(t, "D", "", "", "", "src", "src/inner")
	pl := map[string]string{}
	var args, list, flags, fileTexts []string
	excluded := func(string) bool { return false }
	var excl []string
	if chance(t, "X", 25) {
		for i := intn(t, "nX", 1, 2); i > 0; i-- {
			excl = append(excl, oneOf(t, "Xv", "main0.go", "tree/a1.go", "tree", "./tree/", "tree/sub", "nowhere", "x.go", "two/../tree", "ü2.go"))
		}
		excluded = func(p string) bool {
			for _, e := range excl {
				if within(filepath.Clean(p), filepath.Clean(e)) {
					return true
				}
			}
			return false
		}
		if chance(t, "joinedX", 40) {
			flags = append(flags, oneOf(t, "Xflag", "-X", "--exclude"), strings.Join(excl, ","))
		} else {
			for _, e := range excl {
				flags = append(flags, oneOf(t, "Xflag", "-X", "--exclude"), e)
			}
		}
	}
	abs := func(p string) string { return scratch + "/" + filepath.Join(dir, p) }
	absolute := func() bool { return len(excl) == 0 && chance(t, "absolute", 15) }
	stdin, tree, treeAbs := false, false, false
	n := intn(t, "nfiles", 1, 3)
	if intn(t, "more files", 0, 999)%31 == 15 {
		n = intn(t, "nfiles more", 4, 12)
	}
	var named []string
	for i := 0; i < n; i++ {
		f := goProgram(t, "x.go", false, pl)
		fileTexts = append(fileTexts, f.Src)
		k := intn(t, "place", 0, 9)
		var p string
		switch {
		case k < 4:
			p = fmt.Sprintf("%s%d.go", oneOf(t, "name", "main", "two/x", "ü", "x_test", "..x", "..two/x"), i)
			named = append(named, p)
			if absolute() {
				f.Name = abs(p)
				args = append(args, f.Name)
				break
			}
			args = append(args, oneOf(t, "spelled", p, p, "./"+p, filepath.Dir(p)+"//"+filepath.Base(p)))
			if chance(t, "twice", 10) {
				args = append(args, p)
			}
		case k < 6:
			p = fmt.Sprintf("%s%d.go", oneOf(t, "listname", "listed", "listed", "listed", "#listed", "-", "~x", "a#b", "%d"), i)
			named = append(named, p)
			if absolute() {
				f.Name = abs(p)
				list = append(list, f.Name)
				break
			}
			list = append(list, oneOf(t, "spelled", p, "./"+p))
		case k < 9 || stdin:
			p = fmt.Sprintf("tree/%s%d.go", oneOf(t, "name", "a", "sub/b", "sub/deep/c", "..c", "sub/...d", "..e/f"), i)
			named = append(named, p)
			if !tree {
				tree = true
				if treeAbs = absolute(); treeAbs {
					args = append(args, abs("tree"))
				} else {
					args = append(args, oneOf(t, "treearg", "tree", "./tree", "tree/"))
				}
			}
			if treeAbs {
				f.Name = abs(p)
			}
		default:
			stdin = true
			v.Stdin = []byte(f.Src)
			args = append(args, "-")
			f.Name = ""
			c.Read = append(c.Read, f)
			continue
		}
		v.Files = append(v.Files, cliFile{Path: filepath.Join(dir, p), Data: []byte(f.Src)})
		if !strings.HasPrefix(f.Name, scratch) {
			f.Name = filepath.Join(dir, p)
		}
		if !excluded(p) {
			c.Read = append(c.Read, f)
		}
	}
	v.linked(t)
	if tree {
		v.Files = append(v.Files, cliFile{Path: filepath.Join(dir, "tree/notes.txt"), Data: []byte("gotext.Get(\"no\")")})
	}
	v.Files = append(v.Files, cliFile{Path: filepath.Join(dir, "unmentioned.go"), Data: []byte("package p\nimport \"github.com/leonelquinteros/gotext\"\nvar _ = gotext.Get(\"not read\")\n")})
	v.decoys(t, dir, "package p\nimport \"github.com/leonelquinteros/gotext\"\nvar _ = gotext.Get(\"decoy\")\n")
	if dir != "" {
		flags = append(flags, oneOf(t, "Dflag", "-D", "--directory"), dir)
	}
	if len(list) > 0 {
		eol := oneOf(t, "list eol", "\n", "\n", "\r\n")
		s := strings.Join(list, eol)
		if chance(t, "final newline", 60) {
			s += eol
		}
		if chance(t, "blank", 15) {
			s = eol + s
		}
		v.Files = append(v.Files, cliFile{Path: "list.txt", Data: []byte(s)})
		flags = append(flags, oneOf(t, "fflag", "-f", "--files-from"), "list.txt")
	}
	if c.All = chance(t, "all", 20); c.All {
		flags = append(flags, oneOf(t, "aflag", "-a", "--extract-all"))
	}
	found := c.found()
	if chance(t, "x", 20) {
		var es po.Entries
		for _, e := range found {
			if chance(t, "inx", 40) {
				es = append(es, po.Entry{ID: e.ID, Context: oneOf(t, "xctx", e.Context, e.Context, e.Context, "elsewhere"), Str: "x"})
			}
		}
		p := poFileOf(t, "skip.po", distinct(append(entries(t, cliOpts, 0, 2), es...)))
		if chance(t, "xheader", 40) {
			p = poFileOf(t, "skip.po", distinct(append(po.Entries{header()}, p.Entries...)))
		}
		c.ExclPO = p.Entries
		v.Files = append(v.Files, p.file())
		flags = append(flags, oneOf(t, "xflag", "-x", "--exclude-file"), "skip.po")
	}
	if chance(t, "bad", 10) {
		switch intn(t, "how", 0, 5) {
		case 0:
			c.Bad, args = "a source is missing", append(args, "missing.go")
		case 1:
			c.Bad, args = "a directory is missing", append(args, "missing")
		case 2:
			c.Bad, args = "a source is no Go program", append(args, "broken.go")
			v.Files = append(v.Files, cliFile{Path: filepath.Join(dir, "broken.go"), Data: []byte("package p\nfunc {")})
		case 3:
			if len(list) == 0 {
				c.Bad, flags = "the list is missing", append(flags, "-f", "missing-list")
			}
		case 4:
			if c.ExclPO == nil {
				c.Bad, flags = "the exclude file is missing", append(flags, "-x", "missing.po")
			}
		case 5:
			if c.ExclPO == nil {
				c.Bad, flags = "the exclude file is malformed", append(flags, "-x", "bad.po")
				v.Files = append(v.Files, cliFile{Path: "bad.po", Data: []byte(badPO(t))})
			}
		}
	}
	// the header and the looks of the output
	if c.Omit = chance(t, "omit", 25); c.Omit {
		flags = append(flags, "--omit-header")
	}
	field := func(flag, key string, vals ...string) {
		if chance(t, flag, 15) {
			c.Header[key] = oneOf(t, flag+"v", vals...)
			flags = append(flags, flag+"="+c.Header[key])
		}
	}
	field("--lang", "Language", "de", "pt_BR", "sr@latin")
	field("--package-version", "Project-Id-Version", "demo 1.0", "x: y")
	field("--msgid-bugs-address", "Report-Msgid-Bugs-To", "bugs@example.com", "https://example.com/a b")
	if chance(t, "m", 20) {
		c.Prefix, c.Suffix = oneOf(t, "prefix", "", "<<", "\"", "%d "), oneOf(t, "suffix", "", ">>", "\n", "é")
		flags = append(flags, "--msgstr-prefix="+c.Prefix, "-M", c.Suffix)
	}
	c.View = poView{NoWrap: !chance(t, "wrap", 30)}
	if !c.View.NoWrap {
		flags = append(flags, "--word-wrap")
	}
	if chance(t, "locations", 25) {
		if c.View.NoLocation = chance(t, "nolocation", 40); c.View.NoLocation {
			flags = append(flags, oneOf(t, "nflag", "-n", "--no-location"))
		} else {
			c.View.AddLocation = oneOf(t, "addlocation", "full", "file", "never")
			flags = append(flags, "--add-location="+c.View.AddLocation)
		}
	}
	if !join && chance(t, "color", 10) && !strings.Contains(strings.Join(fileTexts, "\n"), "\x1b") {
		c.View.Color = true
		flags = append(flags, "--color=always")
	}
	if chance(t, "verbose", 10) {
		flags = append(flags, "--verbose")
	}
	if chance(t, "forcepo", 10) {
		flags = append(flags, "--force-po")
	}
	// the output
	k := intn(t, "out", 0, 8)
	if join {
		k = intn(t, "joinout", 3, 8)
	}
	switch k {
	case 0, 1:
	case 2:
		flags = append(flags, "-o", "-")
	case 3:
		c.Out = "out.pot"
		flags = append(flags, oneOf(t, "oflag", "-o", "--output"), c.Out)
	case 4:
		c.Out = "o/x y.pot"
		flags = append(flags, "-o", c.Out)
	case 5:
		dom := oneOf(t, "dom", "dom", "dom", "messages", "x.pot", "a b", "d/dom")
		c.Out = dom + ".pot"
		flags = append(flags, oneOf(t, "dflag", "-d", "--default-domain"), dom)
	case 6:
		c.Out = "o/p/messages.pot"
		flags = append(flags, oneOf(t, "pflag", "-p", "--output-dir"), "o/p")
	case 7:
		c.Out = "o/dom.pot"
		flags = append(flags, "-p", "o", "-d", "dom")
	case 8:
		c.Out = "o/sub/out.pot"
		flags = append(flags, "-p", "o", "-o", "sub/out.pot")
	}
	if c.Out != "" {
		v.Files = append(v.Files, cliFile{Path: filepath.Dir(c.Out), Dir: true})
		if !join && chance(t, "exists", 40) {
			v.Files = append(v.Files, cliFile{Path: c.Out, Data: []byte(strings.Repeat("what was there before\n", 300))})
		}
	}
	if join && c.Bad == "" && chance(t, "join with stdout", 3) {
		c.Bad = "there is no file to join with"
		flags = append(flags, "-o", "-")
	}
	if join {
		flags = append(flags, oneOf(t, "jflag", "-j", "--join-existing"))
		c.drawExisting(t, found)
	}
	v.Args = append(append([]string{}, args...), flags...)
	if chance(t, "flags first", 50) {
		v.Args = append(append([]string{}, flags...), args...)
	}
	return c
}

// drawExisting draws the file that is joined with.
func (c *xCase) drawExisting(t *rapid.T, found po.Entries) {
	if c.NoFile = chance(t, "nofile", 10); c.NoFile {
		return
	}
	var es po.Entries
	for _, f := range found {
		if !chance(t, "known", 50) {
			continue
		}
		e := genEntry(t, cliOpts)
		e.ID, e.Context = f.ID, f.Context
		if chance(t, "samekind", 70) {
			e.Plural = f.Plural
			if e.Plural == "" {
				e.Plurals = nil
			} else {
				e.Str, e.Plurals = "", po.PluralEntries{{ID: 0, Str: "one"}, {ID: 1, Str: "many"}}
			}
		}
		for _, l := range f.Locations {
			if chance(t, "samelocation", 50) && l.File != "" {
				e.Locations = append(e.Locations, l)
			}
		}
		es = append(es, e)
	}
	es = distinct(append(es, entries(t, cliOpts, 0, 4)...))
	if chance(t, "rotate", 30) && len(es) > 1 {
		es = append(es[1:len(es):len(es)], es[0])
	}
	if chance(t, "existingheader", 60) {
		h := header()
		h.Comments = texts(t, "headercomment", 2, line)
		es = append(po.Entries{h}, es...)
	}
	p := poFileOf(t, c.Out, es)
	c.Existing = p.Entries
	if c.Bad == "" && chance(t, "badexisting", 5) {
		c.Bad, p.Text = "the existing file is malformed", badPO(t)
	}
	c.Inv.Files = append(c.Inv.Files, p.file())
}

// found is what the extraction finds, without the header. References to standard input have no file name.
func (c xCase) found() po.Entries {
	m, order := expected(c.Read)
	if c.All {
		for _, f := range c.Read {
			for _, l := range f.Lits {
				if l.Arg || l.Value == "" {
					continue
				}
				k := goKey("", l.Value)
				if m[k] == nil {
					m[k] = &goMsg{ID: l.Value}
					order = append(order, k)
				}
				m[k].Locs = append(m[k].Locs, po.Location{File: f.Name, Line: l.Line})
			}
		}
	}
	skip := index(c.ExclPO, func(e po.Entry) bool { return !isHeader(e) })
	var r po.Entries
	for _, k := range order {
		if _, ok := skip[k]; ok {
			continue
		}
		e := po.Entry{ID: m[k].ID, Context: m[k].Context, Plural: m[k].Plural, Locations: m[k].Locs}
		if e.Plural != "" {
			e.Plurals = po.PluralEntries{{ID: 0}, {ID: 1}}
		}
		r = append(r, e)
	}
	return r
}

// run runs the tool and returns the messages it wrote, with references to standard input without file name.
func (c xCase) run(x *Ctx, dir string) (po.Entries, string, error) {
	before := snapshot(dir)
	r, err := c.Inv.run(x, dir)
	if err == nil {
		err = ranWell(c.Inv, r)
	}
	if err != nil {
		return nil, "", err
	}
	after := snapshot(dir)
	out := r.stdout
	if c.Out != "" {
		if out != "" {
			return nil, "", fmt.Errorf("%s writes to standard output: %s", c.Inv, cut(out, 300))
		}
		if _, ok := after[c.Out]; !ok {
			return nil, "", fmt.Errorf("%s does not write %s", c.Inv, c.Out)
		}
		out = strings.TrimPrefix(after[c.Out], "file ")
		err = onlyChanged(before, after, c.Out)
	} else {
		err = onlyChanged(before, after)
	}
	if err != nil {
		return nil, "", fmt.Errorf("%s: %v", c.Inv, err)
	}
	if out, err = c.View.plain(out); err != nil {
		return nil, "", fmt.Errorf("%s: %v", c.Inv, err)
	}
	es, err := readOutput(c.Inv, out)
	if err != nil {
		return nil, "", err
	}
	if err := c.View.wrapped(out); err != nil {
		return nil, "", fmt.Errorf("%s: %v", c.Inv, err)
	}
	for i := range es {
		for j, l := range es[i].Locations {
			if s, ok := strings.CutPrefix(l.File, dir+"/"); ok {
				es[i].Locations[j].File = scratch + "/" + s
			}
		}
	}
	return es, out, nil
}

// plainLocations cleans and sorts references, and unnames standard input.
func (c xCase) plainLocations(es po.Entries) po.Entries {
	es = clone(es)
	for i := range es {
		for j, l := range es[i].Locations {
			l.File = filepath.Clean(l.File)
			if strings.Contains(l.File, "stdin") || l.File == "-" || l.File == "." {
				l.File = "(standard input)"
			}
			es[i].Locations[j] = l
		}
		sort.SliceStable(es[i].Locations, func(a, b int) bool {
			x, y := es[i].Locations[a], es[i].Locations[b]
			return x.File < y.File || x.File == y.File && x.Line < y.Line
		})
		if c.Join { // The existing file may spell a path in another way.
			var ls po.Locations
			for j, l := range es[i].Locations {
				if j == 0 || l != es[i].Locations[j-1] {
					ls = append(ls, l)
				}
			}
			es[i].Locations = ls
		}
	}
	return es
}

// judgeHeader judges the header of a new template, and returns the rest.
func (c xCase) judgeHeader(es po.Entries) (po.Entries, error) {
	i := headerAt(es)
	if c.Omit {
		if i >= 0 {
			return nil, fmt.Errorf("there is a header: %s", showEntry(es[i]))
		}
		return es, nil
	}
	if i != 0 {
		return nil, fmt.Errorf("the first message is not the header")
	}
	fields := map[string]string{}
	for _, f := range modelHeader(es[0].Str) {
		fields[f.Key] = f.Value
	}
	for k, v := range c.Header {
		if fields[k] != v {
			return nil, fmt.Errorf("%s is %q in the header, not %q: %q", k, fields[k], v, es[0].Str)
		}
	}
	return es[1:], nil
}

// withoutPrefix takes the prefix and suffix off untranslated plural messages, where they are not specified.
func (c xCase) withoutPrefix(es po.Entries, of map[string]bool) po.Entries {
	for i := range es {
		if !of[uid(es[i])] {
			continue
		}
		for j, p := range es[i].Plurals {
			if p.Str == c.Prefix+c.Suffix {
				es[i].Plurals[j].Str = ""
			}
		}
	}
	return es
}

func (c xCase) refusedRun(x *Ctx) error {
	x.NonTrivial(true)
	x.Label("must fail", true)
	dir := c.Inv.setup(x)
	before := snapshot(dir)
	r, err := c.Inv.run(x, dir)
	if err != nil {
		return err
	}
	return refused(c.Inv, r, before, dir, c.Bad)
}

func checkP44(c xCase, x *Ctx) error {
	for _, f := range c.Read {
		must(f.valid())
	}
	if c.Bad != "" {
		return c.refusedRun(x)
	}
	es, out, err := c.run(x, c.Inv.setup(x))
	if err != nil {
		return err
	}
	want := c.found()
	x.NonTrivial(len(want) > 0)
	x.Label("several files", len(c.Read) > 1)
	x.Label("to a file", c.Out != "")
	got, err := c.judgeHeader(es)
	if err != nil {
		return fmt.Errorf("%s: %v", c.Inv, err)
	}
	plural := map[string]bool{}
	for i := range want {
		if want[i].Plural == "" {
			want[i].Str = c.Prefix + c.Suffix
		}
		plural[uid(want[i])] = true
	}
	want = c.View.apply(c.plainLocations(want))
	if err := sameSet(c.withoutPrefix(c.plainLocations(got), plural), want); err != nil {
		return fmt.Errorf("%s: %v\noutput:\n%s%s", c.Inv, err, cut(out, 2000), showSrc(c.Read))
	}
	return nil
}

func checkP47(c xCase, x *Ctx) error {
	for _, f := range c.Read {
		must(f.valid())
	}
	if c.Bad != "" {
		return c.refusedRun(x)
	}
	dir := c.Inv.setup(x)
	es, out, err := c.run(x, dir)
	if err != nil {
		return err
	}
	first := clone(es)
	found := c.found()
	want := c.plainLocations(c.Existing)
	fresh := map[string]bool{}
	joined := 0
	for _, f := range c.plainLocations(found) {
		at := -1
		for i, e := range want {
			if uid(e) == uid(f) {
				at = i
			}
		}
		if at < 0 {
			fresh[uid(f)] = true
			if f.Plural == "" {
				f.Str = c.Prefix + c.Suffix
			}
			want = append(want, f)
			continue
		}
		joined++
		e := &want[at]
		e.Obsolete = false
		if e.Plural == "" && f.Plural != "" {
			e.Plural, e.Plurals, e.Str = f.Plural, po.PluralEntries{{ID: 0, Str: e.Str}, {ID: 1}}, ""
		}
		for _, l := range f.Locations {
			known := false
			for _, k := range e.Locations {
				known = known || k.File == l.File && (k.Line == l.Line || c.View.AddLocation == "file")
			}
			if !known {
				e.Locations = append(e.Locations, l)
			}
		}
	}
	x.NonTrivial(len(c.Existing) > 0 && len(found) > 0)
	x.Label("kept, joined and new", len(c.Existing) > joined && joined > 0 && len(fresh) > 0)
	x.Label("no file", c.NoFile)
	if headerAt(c.Existing) < 0 {
		if es, err = c.judgeHeader(es); err != nil {
			return fmt.Errorf("%s: %v", c.Inv, err)
		}
	} else if c.Omit {
		want = want[1:]
	}
	// The second reading sorts the references of those that lost their lines.
	want = c.plainLocations(c.View.apply(want))
	if err := sameSet(c.withoutPrefix(c.plainLocations(es), fresh), want); err != nil {
		return fmt.Errorf("%s: %v\noutput:\n%s%s", c.Inv, err, cut(out, 2000), showSrc(c.Read))
	}
	if !c.Omit || headerAt(c.Existing) >= 0 {
		second, again, err := c.run(x, dir)
		if err != nil {
			return fmt.Errorf("for the second time: %v", err)
		}
		// Obsolete messages are read last.
		if err := diffEntries(activeThenObsolete(second), activeThenObsolete(first)); err != nil {
			return fmt.Errorf("%s: joining again: %v\nthe file was\n%s\nand is\n%s", c.Inv, err, cut(out, 2000), cut(again, 2000))
		}
	}
	return nil
}

func init() {
	register("P44", 6000, 60000, "one to three Go programs (see P22), as arguments in several spellings, in lists, in directories and on standard input, with exclusions of files, directories and messages, all options, every kind of output, and missing and malformed inputs; non-trivial: a message, or a run that must fail",
		func(t *rapid.T) xCase { return drawX(t, false) }, checkP44)
	register("P47", 6000, 60000, "programs and options as for P44 and an existing template or catalog with some of the messages (in other states, kinds, and with some of the references) and others; non-trivial: existing and extracted messages, or a run that must fail",
		func(t *rapid.T) xCase { return drawX(t, true) }, checkP47)
}
