package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"pgregory.net/rapid"
)

// --- P43: msgomerge -------------------------------------------------------------------

type p43Case struct {
	Inv       invocation // without the options that alter the output
	Def, Ref  po.Entries
	Compendia []po.Entries
	DefPath   string
	Fuzzy     bool
	View      poView
	Lang      string
	Update    bool
	Out       string
	Options   []string
	Bad       string
}

// distinct keeps the header of es in front of the other, distinct messages.
func distinct(es po.Entries) po.Entries {
	var r po.Entries
	for _, e := range es {
		if isHeader(e) && len(r) == 0 {
			r = append(r, e)
		}
	}
	return append(r, dedupe(es)...)
}

func drawP43(t *rapid.T) p43Case {
	m := drawMerge(t)
	c := p43Case{Fuzzy: !chance(t, "N", 50)}
	v := &c.Inv
	v.Tool = "msgomerge"
	dir := oneOf(t, "dir", "", "", "d", "d/e")
	def := poFileOf(t, oneOf(t, "defname", "de.po", "sub/de.po", "ü x.po"), distinct(m.Def))
	ref := poFileOf(t, oneOf(t, "refname", "new.pot", "sub/new.pot"), distinct(m.Ref))
	c.Def, c.Ref = def.Entries, ref.Entries
	c.DefPath = filepath.Join(dir, def.Name)
	place := func(p cliPO) {
		p.Name = filepath.Join(dir, p.Name)
		v.Files = append(v.Files, p.file())
	}
	place(def)
	place(ref)
	v.linked(t)
	texts := []string{def.Text, ref.Text}
	var flags []string
	if !c.Fuzzy {
		flags = append(flags, oneOf(t, "Nflag", "-N", "--no-fuzzy-matching"))
	}
	if dir != "" {
		flags = append(flags, oneOf(t, "Dflag", "-D", "--directory"), dir)
	}
	var comps []string
	if chance(t, "compendia", 40) {
		for i := intn(t, "ncomp", 1, 2); i > 0; i-- {
			var es po.Entries
			for _, r := range append(clone(c.Ref), c.Def...) {
				if chance(t, "incomp", 40) {
					e := genEntry(t, cliOpts)
					e.ID, e.Context = r.ID, r.Context
					if isHeader(e) {
						continue
					}
					if (r.Plural == "") != (e.Plural == "") && chance(t, "kind", 85) {
						e.Plural, e.Str, e.Plurals = r.Plural, "compendium", nil
						if r.Plural != "" {
							e.Str, e.Plurals = "", po.PluralEntries{{ID: 0, Str: "one"}, {ID: 1, Str: "many"}}
						}
					}
					es = append(es, e)
				}
			}
			es = dedupe(append(es, entries(t, cliOpts, 0, 2)...))
			if chance(t, "compheader", 40) {
				es = append(po.Entries{header()}, es...)
			}
			p := poFileOf(t, fmt.Sprintf("comp%d.po", i), es)
			place(p)
			texts = append(texts, p.Text)
			c.Compendia = append(c.Compendia, p.Entries)
			comps = append(comps, p.Name)
		}
		if chance(t, "joined", 40) {
			flags = append(flags, "-C", strings.Join(comps, ","))
		} else {
			for _, p := range comps {
				flags = append(flags, oneOf(t, "Cflag", "-C", "--compendium"), p)
			}
		}
	}
	v.decoys(t, dir, "msgid \"decoy\"\nmsgstr \"x\"\n")
	args := []string{def.Name, ref.Name}
	if chance(t, "bad", 12) {
		i := intn(t, "which", 0, 1+len(comps))
		switch intn(t, "how", 0, 3) {
		case 0:
			c.Bad = "an input is missing"
			v.Files = append(v.Files[:i:i], v.Files[i+1:]...)
		case 1:
			c.Bad = "an input is malformed"
			v.Files[i].Data = []byte(badPO(t))
		case 2:
			c.Bad, args = "the template is not given", args[:1]
		case 3:
			c.Bad, args = "there are three files", append(args, ref.Name)
		}
	}
	v.Args = append(flags, args...)
	if chance(t, "flags last", 40) {
		v.Args = append(args, flags...)
	}
	o := &c.Options
	c.View = drawView(t, texts...)
	*o = append(*o, c.View.args()...)
	if chance(t, "lang", 20) {
		c.Lang = oneOf(t, "langv", "de", "en", "sr@latin", "x y")
		*o = append(*o, "--lang="+c.Lang)
	}
	if c.Update = chance(t, "update", 30); c.Update {
		*o = append(*o, oneOf(t, "Uflag", "-U", "--update"))
	}
	if c.Out = oneOf(t, "out", "", "", "-", "out.po", "o/out.po", "same"); c.Out != "" {
		switch c.Out {
		case "same": // one of the files that are read
			c.Out = filepath.Join(dir, oneOf(t, "same", append(args, comps...)...))
		case "out.po", "o/out.po":
			v.Files = append(v.Files, cliFile{Path: filepath.Dir(c.Out), Dir: true})
			if chance(t, "exists", 40) {
				v.Files = append(v.Files, cliFile{Path: c.Out, Data: []byte(strings.Repeat("what was there before\n", 300))})
			}
		}
		*o = append(*o, oneOf(t, "outflag", "-o", "--output-file"), c.Out)
	}
	if chance(t, "force", 10) {
		*o = append(*o, "--force-po")
	}
	if chance(t, "verbose", 8) {
		*o = append(*o, "--verbose")
	}
	for i, f := range v.Files { // not what is written
		if c.Update && i == 0 || filepath.Clean(f.Path) == filepath.Clean(c.Out) {
			v.Files[i].Link = false
		}
	}
	return c
}

// withCompendia is the old catalog with the translations of the compendia.
// Those that were added (not only translated) are in the second result.
func (c p43Case) withCompendia() (po.Entries, map[string]bool) {
	def := clone(c.Def)
	wanted := index(c.Ref, func(e po.Entry) bool { return !isHeader(e) && !e.Obsolete })
	added := map[string]bool{}
	for _, comp := range c.Compendia {
		for _, e := range comp {
			if _, ok := wanted[uid(e)]; !ok || isHeader(e) || !hasTranslation(e) {
				continue
			}
			at := -1
			for i, d := range def {
				if uid(d) == uid(e) {
					at = i
				}
			}
			switch {
			case at < 0:
				added[uid(e)] = true
				def = append(def, clone(po.Entries{e})...)
			case !hasTranslation(def[at]):
				d := &def[at]
				d.Plural, d.Plurals, d.Str = e.Plural, e.Plurals, e.Str
				if isFuzzy(e) && !isFuzzy(*d) {
					d.Flags = append(d.Flags, "fuzzy")
				}
			}
		}
	}
	return def, added
}

func checkP43(c p43Case, x *Ctx) error {
	plain, full := c.Inv, c.Inv
	full.Args = append(append([]string{}, c.Inv.Args...), c.Options...)
	if c.Bad != "" {
		x.NonTrivial(true)
		x.Label("must fail", true)
		dir := full.setup(x)
		before := snapshot(dir)
		r, err := full.run(x, dir)
		if err != nil {
			return err
		}
		return refused(full, r, before, dir, c.Bad)
	}
	dir := plain.setup(x)
	before := snapshot(dir)
	r, err := plain.run(x, dir)
	if err == nil {
		err = ranWell(plain, r)
	}
	if err == nil {
		err = onlyChanged(before, snapshot(dir))
	}
	if err != nil {
		return err
	}
	base, err := readOutput(plain, r.stdout)
	if err != nil {
		return err
	}
	m := mergeCase{Ref: c.Ref, Fuzzy: c.Fuzzy, Sort: true, Mode: po.SortByAll}
	var added map[string]bool
	m.Def, added = c.withCompendia()
	x.Label("a compendium adds a message", len(added) > 0)
	for i, d := range m.Def { // What else comes from a compendium is not specified.
		if added[uid(d)] {
			for _, e := range base {
				if uid(e) == uid(d) {
					m.Def[i].Comments = e.Comments
				}
			}
		}
	}
	v := viewMerged(m, base, x)
	for _, judge := range []func(*Ctx) error{v.judge15, v.judge16, v.judge17, v.judge49} {
		if err := judge(x); err != nil {
			return fmt.Errorf("%s: %v\noutput:\n%s", plain, err, cut(r.stdout, 1500))
		}
	}
	for i := 1; i < len(base); i++ {
		if a, b := base[i-1], base[i]; a.Obsolete == b.Obsolete && entryOrders[6].want(a, b) > 0 {
			return fmt.Errorf("%s: not in order at %d: %s, %s", plain, i, showEntry(a), showEntry(b))
		}
	}
	if len(c.Options) == 0 {
		return nil
	}
	x.Label("options", true)
	dir = full.setup(x)
	before = snapshot(dir)
	r2, err := full.run(x, dir)
	if err == nil {
		err = ranWell(full, r2)
	}
	if err != nil {
		return err
	}
	after := snapshot(dir)
	var may []string
	out := r2.stdout
	if c.Out != "" && c.Out != "-" {
		if out != "" {
			return fmt.Errorf("%s also writes to standard output: %s", full, cut(out, 300))
		}
		may = append(may, c.Out)
		out = strings.TrimPrefix(after[c.Out], "file ")
	}
	if c.Update {
		x.Label("update", true)
		may = append(may, c.DefPath)
		if filepath.Clean(c.Out) != c.DefPath {
			updated := strings.TrimPrefix(after[c.DefPath], "file ")
			if out != "" && out != updated {
				return fmt.Errorf("%s writes two different results:\n%s\nand\n%s", full, cut(out, 800), cut(updated, 800))
			}
			out = updated
		}
	}
	if err := onlyChanged(before, after, may...); err != nil {
		return fmt.Errorf("%s: %v", full, err)
	}
	text := out
	if out, err = c.View.plain(out); err != nil {
		return fmt.Errorf("%s: %v", full, err)
	}
	got, err := readOutput(full, out)
	if err != nil {
		return err
	}
	if err := c.View.wrapped(out); err != nil {
		return fmt.Errorf("%s: %v", full, err)
	}
	expect := c.View.apply(base)
	if i := headerAt(expect); c.Lang != "" && i >= 0 {
		j := headerAt(got)
		if j < 0 {
			return fmt.Errorf("%s: the header is missing", full)
		}
		if len(modelHeader(expect[i].Str)) > 0 {
			if err := languageSet(got[j].Str, expect[i].Str, c.Lang); err != nil {
				return fmt.Errorf("%s: %v", full, err)
			}
		}
		expect[i].Str = got[j].Str // judged
	}
	if err := diffEntries(got, expect); err != nil {
		return fmt.Errorf("%s: %v\nwithout options:\n%s\nwith:\n%s", full, err, cut(r.stdout, 1500), cut(out, 1500))
	}
	// an up-to-date catalog stays as it is
	if c.Update && c.Out == "" && !c.View.Color {
		x.Label("updated twice", true)
		again, err := full.run(x, dir)
		if err == nil {
			err = ranWell(full, again)
		}
		if err != nil {
			return err
		}
		now := readFile(filepath.Join(dir, c.DefPath))
		same := now == text
		if !same && (c.View.NoLocation || c.View.AddLocation != "") { // obsolete messages are sorted by their references
			es, err := readOutput(full, now)
			if err != nil {
				return err
			}
			same = sameSet(es, got) == nil
		}
		if !same {
			return fmt.Errorf("%s: updating again changes the catalog from\n%s\nto\n%s", full, cut(text, 1500), cut(now, 1500))
		}
	}
	return nil
}

func init() {
	register("P43", 6000, 60000, "a catalog, a template (see P15) and up to two compendia, in any layout, in directories, with all options, and malformed and missing inputs; non-trivial: some message is in both and some is dropped or added, or a run that must fail", drawP43, checkP43)
}
