package main

import (
	"fmt"
	"math"
	"path/filepath"
	"sort"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"pgregory.net/rapid"
)

// --- P42: msgocat ---------------------------------------------------------------------

type p42Case struct {
	Inv     invocation
	Cat     catCase // the inputs in order, and the selection
	View    poView
	Sort    string // "", "all" or "file"
	Lang    string
	Out     string
	Options []string // the options that change more than the selection
	Bad     string
}

func drawP42(t *rapid.T) p42Case {
	c := p42Case{Cat: drawCat(t)}
	v := &c.Inv
	v.Tool = "msgocat"
	if len(c.Cat.Files) == 0 {
		c.Cat.Files = append(c.Cat.Files, catFile{Entries: entries(t, cliOpts, 1, 3)})
	}
	// where the inputs are
	names := []string{"b.po", oneOf(t, "oddname", "z.po", "z.po", ".hidden.po", " leading.po", "trailing.po ", "#list.po"), "sub/c.po", "ü.po", "x y.pot", "no-extension", "a.po", "Q1.po", "p2.po", "o3.po", "n4.po", "m5.po", "l6.po"}
	for i := len(names); i < len(c.Cat.Files); i++ {
		names = append(names, fmt.Sprintf("more%d.po", 999-i))
	}
	var args, list, inDir []int
	dir := "dir"
	stdin := -1
	for i := range c.Cat.Files {
		switch k := intn(t, "place", 0, 9); {
		case k < 6:
			args = append(args, i)
		case k < 8:
			list = append(list, i)
		default:
			inDir = append(inDir, i)
		}
	}
	listFromStdin := len(list) > 0 && chance(t, "list on stdin", 30)
	if len(args) > 0 && !listFromStdin && chance(t, "stdin", 20) {
		stdin = oneOf(t, "stdin file", args...)
	}
	var files []catFile
	var texts []string
	sort.Slice(inDir, func(i, j int) bool { return names[inDir[i]] < names[inDir[j]] })
	for _, i := range append(append(append([]int{}, args...), list...), inDir...) {
		f := c.Cat.Files[i]
		f.Name = names[i]
		for _, j := range inDir {
			if j == i {
				f.Name = filepath.Join(dir, filepath.Base(names[i]))
			}
		}
		p := poFileOf(t, f.Name, f.Entries)
		if i == stdin {
			f.Name = "-"
			v.Stdin = []byte(p.Text)
		} else {
			v.Files = append(v.Files, p.file())
		}
		f.Entries = p.Entries
		files = append(files, f)
		texts = append(texts, p.Text)
	}
	c.Cat.Files = files
	if len(inDir) > 0 { // the directory is read in order of names
		k := len(files) - len(inDir)
		sort.Slice(files[k:], func(i, j int) bool { return files[k+i].Name < files[k+j].Name })
	}
	v.linked(t)
	flagArgs := []string{}
	for n := range args {
		v.Args = append(v.Args, files[n].Name)
	}
	if len(list) > 0 {
		var b strings.Builder
		eol := oneOf(t, "list eol", "\n", "\n", "\r\n")
		for n := range list {
			b.WriteString(files[len(args)+n].Name + eol)
			if chance(t, "blank", 15) {
				b.WriteString(eol)
			}
		}
		s := b.String()
		if chance(t, "no final newline", 30) {
			s = strings.TrimRight(s, "\r\n")
		}
		name := "-"
		if listFromStdin {
			v.Stdin = []byte(s)
		} else {
			name = "list"
			v.Files = append(v.Files, cliFile{Path: name, Data: []byte(s)})
		}
		flagArgs = append(flagArgs, oneOf(t, "listflag", "-f", "--files-from"), name)
	}
	if len(inDir) > 0 {
		flagArgs = append(flagArgs, oneOf(t, "dirflag", "-D", "--directory"), dir)
	}
	// selection
	if chance(t, "select", 45) {
		cat := &c.Cat
		switch {
		case chance(t, "unique", 25):
			cat.HasL, cat.Less = true, 2
			flagArgs = append(flagArgs, oneOf(t, "uniqueflag", "-u", "--unique"))
		case chance(t, "less", 60):
			cat.HasL, cat.Less = true, oneOf(t, "lessthan", uint(2), 2, 3, 4, math.MaxUint32)
			if chance(t, "short", 30) {
				flagArgs = append(flagArgs, "-<", fmt.Sprint(cat.Less))
			} else {
				flagArgs = append(flagArgs, fmt.Sprintf("--less-than=%d", cat.Less))
			}
		}
		if !cat.HasL || chance(t, "more", 40) {
			cat.HasM, cat.More = true, oneOf(t, "morethan", uint(0), 1, 1, 1, 2, 3)
			if chance(t, "short", 30) {
				flagArgs = append(flagArgs, "->", fmt.Sprint(cat.More))
			} else {
				flagArgs = append(flagArgs, fmt.Sprintf("--more-than=%d", cat.More))
			}
		}
	}
	if c.Cat.UseFirst = chance(t, "usefirst", 25); c.Cat.UseFirst {
		flagArgs = append(flagArgs, "--use-first")
	}
	// what must fail
	if chance(t, "bad", 12) {
		i := intn(t, "which", 0, len(files)-1)
		switch intn(t, "how", 0, 3) {
		case 0:
			c.Bad, v.Args = "an input is missing", append(v.Args, "missing.po")
		case 1:
			c.Bad = "an input is malformed"
			text := []byte(badPO(t))
			if files[i].Name == "-" {
				v.Stdin = text
			}
			for j := range v.Files {
				if v.Files[j].Path == files[i].Name {
					v.Files[j].Data = text
				}
			}
		case 2:
			if len(list) == 0 {
				c.Bad, flagArgs = "the list is missing", append(flagArgs, "-f", "missing-list")
			}
		case 3:
			if len(inDir) == 0 {
				c.Bad, flagArgs = "the directory is missing", append(flagArgs, "-D", "missing-dir")
			}
		}
	}
	// options that change more
	o := &c.Options
	c.View = drawView(t, texts...)
	*o = append(*o, c.View.args()...)
	switch c.Sort = oneOf(t, "sort", "", "", "", "all", "file"); c.Sort {
	case "all":
		*o = append(*o, oneOf(t, "sortflag", "-s", "--sort-output"))
	case "file":
		*o = append(*o, oneOf(t, "sortfileflag", "-F", "--sort-by-file"))
	}
	if chance(t, "lang", 20) {
		c.Lang = oneOf(t, "langv", "de", "pt_BR", "sr@latin", "x y")
		*o = append(*o, "--lang="+c.Lang)
	}
	if c.Out = oneOf(t, "out", "", "", "-", "out.po", "o/out.po"); c.Out != "" {
		*o = append(*o, oneOf(t, "outflag", "-o", "--output-file"), c.Out)
		if c.Out != "-" {
			v.Files = append(v.Files, cliFile{Path: filepath.Dir(c.Out), Dir: true})
			if chance(t, "exists", 40) {
				v.Files = append(v.Files, cliFile{Path: c.Out, Data: []byte(strings.Repeat("what was there before\n", 300))})
			}
		}
	}
	if chance(t, "flags first", 50) {
		v.Args = append(flagArgs, v.Args...)
	} else {
		v.Args = append(v.Args, flagArgs...)
	}
	return c
}

func checkP42(c p42Case, x *Ctx) error {
	plain := c.Inv
	full := c.Inv
	full.Args = append(append([]string{}, c.Inv.Args...), c.Options...)
	if c.Bad != "" {
		x.NonTrivial(true)
		x.Label("must fail", true)
		dir := full.setup(x)
		before := snapshot(dir)
		r, err := full.run(x, dir)
		if err != nil {
			return err
		}
		return refused(full, r, before, dir, c.Bad)
	}
	// without the options that change more
	dir := plain.setup(x)
	before := snapshot(dir)
	r, err := plain.run(x, dir)
	if err == nil {
		err = ranWell(plain, r)
	}
	if err == nil {
		err = onlyChanged(before, snapshot(dir))
	}
	if err != nil {
		return err
	}
	base, err := readOutput(plain, r.stdout)
	if err != nil {
		return err
	}
	cv := c.Cat.defsOf()
	cv.setOut(base)
	want, removed := cv.selected(c.Cat)
	byState := map[bool][]string{}
	for _, k := range want {
		byState[cv.res[k].Obsolete] = append(byState[cv.res[k].Obsolete], k)
	}
	want = append(byState[false], byState[true]...)
	cv.setOut(activeThenObsolete(base))
	x.NonTrivial(len(c.Cat.Files) > 1 || len(c.Options) > 0)
	x.Label("some kept, some removed", removed > 0 && len(want) > 0)
	x.Label("options", len(c.Options) > 0)
	if err := cv.judge19(c.Cat, want, x); err != nil {
		return fmt.Errorf("%s: %v\noutput:\n%s", plain, err, cut(r.stdout, 1500))
	}
	if !c.Cat.UseFirst {
		if err := cv.judge21(want, x); err != nil {
			return fmt.Errorf("%s: %v\noutput:\n%s", plain, err, cut(r.stdout, 1500))
		}
	}
	if len(c.Options) == 0 {
		return nil
	}
	// with them
	dir = full.setup(x)
	before = snapshot(dir)
	r2, err := full.run(x, dir)
	if err == nil {
		err = ranWell(full, r2)
	}
	if err != nil {
		return err
	}
	after := snapshot(dir)
	out := r2.stdout
	if c.Out != "" && c.Out != "-" {
		if out != "" {
			return fmt.Errorf("%s also writes to standard output: %s", full, cut(out, 300))
		}
		out = strings.TrimPrefix(after[c.Out], "file ")
		err = onlyChanged(before, after, c.Out)
	} else {
		err = onlyChanged(before, after)
	}
	if err != nil {
		return fmt.Errorf("%s: %v", full, err)
	}
	if out, err = c.View.plain(out); err != nil {
		return fmt.Errorf("%s: %v", full, err)
	}
	got, err := readOutput(full, out)
	if err != nil {
		return err
	}
	if err := c.View.wrapped(out); err != nil {
		return fmt.Errorf("%s: %v", full, err)
	}
	expect := c.View.apply(base)
	if i := headerAt(expect); c.Lang != "" && i >= 0 {
		j := headerAt(got)
		if j < 0 {
			return fmt.Errorf("%s: the header is missing", full)
		}
		if !strings.Contains(expect[i].Str, "#-#-#") && len(modelHeader(expect[i].Str)) > 0 {
			if err := languageSet(got[j].Str, expect[i].Str, c.Lang); err != nil {
				return fmt.Errorf("%s: %v", full, err)
			}
		}
		expect[i].Str = got[j].Str // judged
	}
	if c.Sort == "" {
		err = diffEntries(activeThenObsolete(got), activeThenObsolete(expect))
	} else if err = sameSet(got, expect); err == nil && !c.View.NoLocation && (c.View.AddLocation == "full" || c.View.AddLocation == "") {
		order := entryOrders[6]
		if c.Sort == "file" {
			order = entryOrders[3]
		}
		for i := 1; i < len(got) && err == nil; i++ {
			if got[i-1].Obsolete == got[i].Obsolete && order.want(got[i-1], got[i]) > 0 {
				err = fmt.Errorf("not in order at %d: %s, %s", i, showEntry(got[i-1]), showEntry(got[i]))
			}
		}
	}
	if err != nil {
		return fmt.Errorf("%s: %v\nwithout options:\n%s\nwith:\n%s", full, err, cut(r.stdout, 1500), cut(out, 1500))
	}
	return nil
}

func headerAt(es po.Entries) int {
	for i, e := range es {
		if isHeader(e) {
			return i
		}
	}
	return -1
}

// languageSet judges that a header has the given language, and is otherwise as before.
func languageSet(got, before, lang string) error {
	a, b := modelHeader(got), modelHeader(before)
	found := false
	for i := range b {
		if b[i].Key == "Language" && !found {
			b[i].Value, found = lang, true
		}
	}
	if !found {
		b = append(b, po.HeaderField{Key: "Language", Value: lang})
	}
	if js(a) != js(b) || strings.HasSuffix(before, "\n") && !strings.HasSuffix(got, "\n") {
		return fmt.Errorf("the header is %q, was %q, language %q", got, before, lang)
	}
	return nil
}

func init() {
	register("P42", 6000, 60000, "one to five PO files over common messages (see P19), as arguments, in a list, in a directory and on standard input, with selections and all options, and with malformed and missing inputs; non-trivial: two files, an option, or a run that must fail", drawP42, checkP42)
}
