package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"pgregory.net/rapid"
)

// --- P45: gotext-tools ----------------------------------------------------------------

type p45Case struct {
	Inv  invocation
	Name string // of the subcommand
}

var subcommands = map[string][]string{
	"msgofmt":   {"msgofmt", "msgfmt", "fmt"},
	"msgounfmt": {"msgounfmt", "msgunfmt", "unfmt"},
	"msgocat":   {"msgocat", "msgcat", "cat"},
	"msgomerge": {"msgomerge", "msgmerge", "merge"},
	"xgotext":   {"xgotext", "xgettext"},
}

// drawAnyRun draws a run of any of the tools, with all of its options.
func drawAnyRun(t *rapid.T) (v invocation) {
	switch intn(t, "tool", 0, 5) {
	case 0:
		v = drawP40(t).Inv
	case 1:
		v = drawP41(t).Inv
	case 2:
		c := drawP42(t)
		v = c.Inv
		v.Args = append(v.Args, c.Options...)
	case 3:
		c := drawP43(t)
		v = c.Inv
		v.Args = append(v.Args, c.Options...)
	default:
		v = drawX(t, chance(t, "join", 50)).Inv
	}
	return v
}

func drawP45(t *rapid.T) p45Case {
	c := p45Case{Inv: drawAnyRun(t)}
	v := &c.Inv
	c.Name = oneOf(t, "name", subcommands[v.Tool]...)
	if chance(t, "odd", 12) {
		switch intn(t, "how", 0, 4) {
		case 0:
			v.Args = append(v.Args, "--no-such-flag")
		case 1:
			v.Args = append(v.Args, "-o")
		case 2:
			v.Args = nil
		case 3:
			v.Args = append(v.Args, "--color="+oneOf(t, "colour", "never", "auto", "sometimes", ""))
		case 4:
			v.Args = append([]string{"--"}, v.Args...)
		}
	}
	return c
}

func checkP45(c p45Case, x *Ctx) error {
	alone, sub := c.Inv, c.Inv
	sub.Tool, sub.Args = "gotext-tools", append([]string{c.Name}, c.Inv.Args...)
	d1, r1, err := alone.start(x)
	if err != nil {
		return err
	}
	d2, r2, err := sub.start(x)
	if err != nil {
		return err
	}
	s1, s2 := snapshot(d1), snapshot(d2)
	for _, o := range []struct {
		dir string
		r   *toolResult
		s   map[string]string
	}{{d1, &r1, s1}, {d2, &r2, s2}} {
		for p, f := range o.s {
			o.s[p] = strings.ReplaceAll(f, o.dir, scratch)
		}
		o.r.stdout = strings.ReplaceAll(o.r.stdout, o.dir, scratch)
	}
	changed := onlyChanged(s1, alone.initial(x)) != nil
	x.NonTrivial(r1.stdout != "" || changed)
	x.Label(c.Inv.Tool, true)
	x.Label("succeeds", r1.code == 0)
	if r1.code != r2.code {
		return fmt.Errorf("%s exits %d, %s %d:\n%s\n%s", alone, r1.code, sub, r2.code, cut(r1.stderr, 600), cut(r2.stderr, 600))
	}
	if r1.stdout != r2.stdout {
		return fmt.Errorf("%s writes\n%s\n%s\n%s", alone, cut(r1.stdout, 1000), sub, cut(r2.stdout, 1000))
	}
	if (strings.TrimSpace(r1.stderr) == "") != (strings.TrimSpace(r2.stderr) == "") {
		return fmt.Errorf("%s has the message %q, %s %q", alone, cut(r1.stderr, 600), sub, cut(r2.stderr, 600))
	}
	if err := onlyChanged(s1, s2); err != nil {
		return fmt.Errorf("files of %s compared to those of %s: %v", sub, alone, err)
	}
	return nil
}

// initial is the state before the run.
func (v invocation) initial(x *Ctx) map[string]string {
	dir := v.setup(x)
	s := snapshot(dir)
	for p, f := range s {
		s[p] = strings.ReplaceAll(f, dir, scratch)
	}
	return s
}

// --- P46: files are safe --------------------------------------------------------------

type p46Case struct {
	Inv    invocation // without output
	Flag   string     // that gives the output
	Force  string     // that allows to overwrite
	Target string     // the output
	Kind   string     // "overlap", "bad", "full", "stdout full", "directory", "no directory"
	Why    string
	Keep   bool // the result depends on what the output is before
}

func drawP46(t *rapid.T) p46Case {
	c := p46Case{Flag: "-o", Kind: oneOf(t, "kind", "overlap", "overlap", "bad", "bad", "full", "stdout full", "directory", "no directory")}
	v := &c.Inv
	v.Tool = oneOf(t, "tool", "msgofmt", "msgounfmt", "msgocat", "msgomerge", "xgotext")
	var inputs []string
	add := func(name string, data string) {
		v.Files = append(v.Files, cliFile{Path: name, Data: []byte(data)})
		inputs = append(inputs, name)
	}
	// more than one buffer full in some cases
	size := oneOf(t, "size", 1, 1, 1, 1, 60)
	catalog := func() po.Entries {
		es := append(po.Entries{{ID: "always", Str: "there"}}, entries(t, cliOpts, 0, 3)...)
		for i := 1; i < size; i++ {
			es = append(es, po.Entry{ID: fmt.Sprintf("m%d", i), Str: strings.Repeat("long ", 40)})
		}
		return append(po.Entries{header()}, dedupe(es)...)
	}
	switch v.Tool {
	case "msgofmt":
		c.Force = "-f"
		parts := drawParts(t, cliOpts, 2)
		parts[0] = append(po.Entries{header(), {ID: "always there", Str: "x"}}, parts[0]...)
		add("a.po", poFileOf(t, "a.po", parts[0]).Text)
		v.Args = append(v.Args, "a.po")
		if chance(t, "second", 50) {
			add("b.po", poFileOf(t, "b.po", parts[1]).Text)
			v.Args = append(v.Args, "b.po")
		}
	case "msgounfmt":
		c.Force = "-f"
		var es po.Entries
		for _, e := range catalog() {
			if len(finished(po.Entries{e})) == 1 {
				es = append(es, e)
			}
		}
		add("a.mo", string(drawMOData(t, sortedByKey(es))))
		v.Args = append(v.Args, "a.mo")
	case "msgocat":
		for _, n := range []string{"a.po", "b.po"} {
			add(n, poFileOf(t, n, catalog()).Text)
			v.Args = append(v.Args, n)
		}
		if chance(t, "list", 30) {
			v.Args = []string{"a.po", "-f", "list"}
			add("list", "b.po\n")
		}
	case "msgomerge":
		add("def.po", poFileOf(t, "def.po", catalog()).Text)
		add("ref.pot", poFileOf(t, "ref.pot", catalog()).Text)
		v.Args = append(v.Args, "def.po", "ref.pot")
		if chance(t, "compendium", 50) {
			add("comp.po", poFileOf(t, "comp.po", catalog()).Text)
			v.Args = append(v.Args, "-C", "comp.po")
		}
	case "xgotext":
		add("main.go", goProgram(t, "main.go", false, map[string]string{}).Src+"\n// end\n")
		v.Args = append(v.Args, "main.go")
		if chance(t, "x", 60) {
			add("skip.po", poFileOf(t, "skip.po", catalog()).Text)
			v.Args = append(v.Args, "-x", "skip.po")
		}
		if chance(t, "list", 40) {
			add("list", "main.go\n")
			v.Args = append(v.Args, "-f", "list")
		}
		if (c.Kind == "overlap" || c.Kind == "bad") && len(inputs) > 1 && inputs[1] == "skip.po" && chance(t, "join", 40) {
			v.Args, c.Keep = append(v.Args, "-j"), true
		}
	}
	c.Target = oneOf(t, "target", inputs...)
	if c.Keep {
		c.Target = "skip.po"
	}
	switch c.Kind {
	case "bad":
		i := intn(t, "which", 0, len(inputs)-1)
		at := 0
		for j, f := range v.Files {
			if f.Path == inputs[i] {
				at = j
			}
		}
		if chance(t, "missing", 40) {
			v.Files = append(v.Files[:at:at], v.Files[at+1:]...)
			c.Why = inputs[i] + " is missing"
		} else {
			c.Why = inputs[i] + " is malformed"
			switch {
			case inputs[i] == "list":
				v.Files[at].Data, c.Why = []byte("missing-file\n"), "the list names a missing file"
			case strings.HasSuffix(inputs[i], ".go"):
				v.Files[at].Data = append(v.Files[at].Data, "\n) no program (\n"...)
			case strings.HasSuffix(inputs[i], ".mo"):
				v.Files[at].Data = v.Files[at].Data[:len(v.Files[at].Data)/2]
			default:
				v.Files[at].Data = []byte(badPO(t))
			}
		}
		if c.Target == inputs[i] && c.Why[0] != 't' || chance(t, "other target", 50) {
			c.Target = "precious"
			v.Files = append(v.Files, cliFile{Path: c.Target, Data: []byte("precious\n")})
			if c.Keep {
				v.Files[len(v.Files)-1].Data = []byte("msgid \"precious\"\nmsgstr \"x\"\n")
			}
		}
	case "directory":
		c.Why, c.Target = "the output is a directory", "occupied"
		v.Files = append(v.Files, cliFile{Path: "occupied/file", Data: []byte("precious\n")})
	case "no directory":
		c.Why, c.Target = "the directory of the output does not exist", "missing/out"
	case "full":
		c.Why, c.Target = "the device of the output is full", "full"
	case "stdout full":
		c.Target = "-"
	}
	return c
}

func (c p46Case) with(target string) invocation {
	v := c.Inv
	v.Args = append(append([]string{}, v.Args...), c.Flag, target)
	if c.Force != "" {
		v.Args = append(v.Args, c.Force)
	}
	return v
}

func checkP46(c p46Case, x *Ctx) error {
	x.NonTrivial(true)
	x.Label(c.Kind, true)
	x.Label(c.Inv.Tool, true)
	v := c.with(c.Target)
	switch c.Kind {
	case "overlap":
		w := c.with("separate")
		if c.Keep {
			for _, f := range c.Inv.Files {
				if f.Path == c.Target {
					w.Files = append(append([]cliFile{}, w.Files...), cliFile{Path: "separate", Data: f.Data})
				}
			}
		}
		dir := w.setup(x)
		before := snapshot(dir)
		r, err := w.run(x, dir)
		if err == nil {
			err = ranWell(w, r)
		}
		if err != nil {
			return err
		}
		after := snapshot(dir)
		if err := onlyChanged(before, after, "separate"); err != nil {
			return fmt.Errorf("%s: %v", w, err)
		}
		want, ok := after["separate"]
		if !ok {
			return fmt.Errorf("%s writes no file", w)
		}
		dir = v.setup(x)
		before = snapshot(dir)
		r, err = v.run(x, dir)
		if err == nil {
			err = ranWell(v, r)
		}
		if err != nil {
			return fmt.Errorf("when the output is an input: %v", err)
		}
		after = snapshot(dir)
		if err := onlyChanged(before, after, c.Target); err != nil {
			return fmt.Errorf("%s: %v", v, err)
		}
		if after[c.Target] != want {
			return fmt.Errorf("%s writes\n%s\nbut to another file\n%s", v, cut(after[c.Target], 1000), cut(want, 1000))
		}
		return nil
	case "stdout full":
		dir := v.setup(x)
		before := snapshot(dir)
		args := append([]string{"-c", `exec "$0" "$@" >/dev/full`, filepath.Join(x.Tools, v.Tool)}, v.Args...)
		r := runTool(dir, "", "/bin/sh", args...)
		if r.killed || strings.Contains(r.stderr, "goroutine ") {
			return fmt.Errorf("%s crashes if its standard output is full: %s", v, cut(r.stderr, 1000))
		}
		if r.code == 0 {
			return fmt.Errorf("%s: the output could not be written, but the exit status is 0", v)
		}
		return onlyChanged(before, snapshot(dir))
	}
	dir := v.setup(x)
	if c.Kind == "full" {
		must(os.Symlink("/dev/full", filepath.Join(dir, "full")))
	}
	before := snapshot(dir)
	r, err := v.run(x, dir)
	if err != nil {
		return err
	}
	return refused(v, r, before, dir, c.Why)
}

func init() {
	register("P45", 5000, 50000, "runs of all tools as drawn for P40-P44 and P47, under all names of the subcommands, and with unknown and incomplete options; non-trivial: something is written", drawP45, checkP45)
	register("P46", 6000, 60000, "runs of all tools whose output is one of their inputs, whose inputs are missing or malformed, and whose output is a directory, in no directory, or on a full device; all cases count as non-trivial", drawP46, checkP46)
}
