package main

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// --- P55: the documentation commands ---------------------------------------------------

var docCommands = []string{"gotext-tools", "xgotext", "msgofmt", "msgounfmt", "msgocat", "msgomerge", "docs", "doc-tree"}

type p55Case struct {
	Inv     invocation
	Kind    string // markdown, man, tree
	Command string
	Out     string // "-": standard output
	Bad     string
}

func drawP55(t *rapid.T) (c p55Case) {
	c.Kind = oneOf(t, "kind", "markdown", "man", "tree")
	c.Command = oneOf(t, "command", docCommands...)
	v := invocation{Tool: "gotext-tools"}
	old := cliFile{Path: "old.md", Data: []byte(strings.Repeat("old content\n", intn(t, "old", 0, 2000)))}
	v.Files = append(v.Files, old, cliFile{Path: "dir", Dir: true}, cliFile{Path: "dir/own.txt", Data: []byte("own")})
	if c.Kind == "tree" {
		c.Out = oneOf(t, "treedir", "dir", "new", "new/er", "./dir/", "a b")
		if chance(t, "again", 20) { // documentation of an earlier version
			v.Files = append(v.Files, cliFile{Path: c.Out + "/gotext-tools_" + oneOf(t, "which", docCommands[1:]...) + ".md", Data: old.Data})
		}
		if chance(t, "bad", 20) {
			c.Out, c.Bad = "old.md/x", "the directory lies in a file"
		}
		v.Args = []string{"doc-tree", oneOf(t, "dirflag", "-D", "--dir"), c.Out}
		c.Inv = v
		return c
	}
	c.Out = oneOf(t, "out", "-", "", "new.md", "old.md", "dir/new.md")
	if chance(t, "bad", 30) {
		switch intn(t, "fault", 0, 2) {
		case 0:
			c.Command = oneOf(t, "unknown", "", "xgo", "XGOTEXT", "xgotext ", "man/xgotext", "--", "msgfmt", "gotext-tools xgotext")
			c.Bad = "there is no such command"
		case 1:
			c.Out, c.Bad = "dir", "the output is a directory"
		case 2:
			c.Out, c.Bad = "nodir/x.md", "the output lies in no directory"
		}
	}
	cmd := []string{oneOf(t, "cflag", "-c", "--command"), c.Command}
	if c.Out != "" {
		out := []string{oneOf(t, "oflag", "-o", "--output"), c.Out}
		if rapid.Bool().Draw(t, "order") {
			cmd = append(out, cmd...)
		} else {
			cmd = append(cmd, out...)
		}
	} else {
		c.Out = "-"
	}
	v.Args = append([]string{"docs", c.Kind}, cmd...)
	c.Inv = v
	return c
}

var (
	helpOption  = regexp.MustCompile(`(?m)^ +(?:-\w, |    )--([\w-]+)(.*)$`)
	helpCommand = regexp.MustCompile(`(?m)^  ([\w-]+) +\S`)
	autoStamp   = regexp.MustCompile(`(?m)^.*Auto generated.*$`)
)

// describe checks that a document tells of everything that the help of the command does.
func describe(x *Ctx, kind, command, doc string) error {
	args := []string{command, "--help"}
	if command == "gotext-tools" {
		args = args[1:]
	}
	v := invocation{Tool: "gotext-tools", Args: args}
	_, r, err := v.start(x)
	if err == nil {
		err = ranWell(v, r)
	}
	if err != nil {
		return err
	}
	full := "gotext-tools"
	if command != full {
		full += " " + command
	}
	if kind == "man" {
		doc = strings.NewReplacer(`\-`, "-", `\fB`, "", `\fP`, "").Replace(doc)
	}
	words := func(s string) string { return strings.Join(strings.Fields(s), " ") }
	if !strings.Contains(words(doc), full) {
		return fmt.Errorf("%q is not named", full)
	}
	options := helpOption.FindAllStringSubmatch(r.stdout, -1)
	if len(options) == 0 {
		return fmt.Errorf("%s shows no options: %s", v, r.stdout)
	}
	for _, o := range options {
		if !regexp.MustCompile(`--` + regexp.QuoteMeta(o[1]) + `(?:[^\w-]|$)`).MatchString(doc) {
			return fmt.Errorf("the option --%s is missing", o[1])
		}
		if kind != "man" && !strings.Contains(words(doc), words("--"+o[1]+o[2])) {
			return fmt.Errorf("the description %q is missing", o[1]+o[2])
		}
	}
	if _, list, ok := strings.Cut(r.stdout, "Available Commands:\n"); ok {
		list, _, _ = strings.Cut(list, "\n\n")
		for _, m := range helpCommand.FindAllStringSubmatch(list, -1) {
			if m[1] != "help" && !strings.Contains(doc, m[1]) {
				return fmt.Errorf("the command %s is missing", m[1])
			}
		}
	}
	return nil
}

func checkP55(c p55Case, x *Ctx) error {
	v := c.Inv
	dir := v.setup(x)
	before := snapshot(dir)
	r, err := v.run(x, dir)
	if err != nil {
		return err
	}
	x.NonTrivial(c.Bad != "" || c.Out != "-")
	x.Label(c.Kind, true)
	x.Label("must fail", c.Bad != "")
	if c.Bad != "" {
		return refused(v, r, before, dir, c.Bad)
	}
	if err := ranWell(v, r); err != nil {
		return err
	}
	after := snapshot(dir)
	if c.Kind == "tree" {
		var may []string
		out := strings.TrimSuffix(strings.TrimPrefix(c.Out, "./"), "/")
		may = append(may, "new", out)
		for p := range after {
			if strings.HasPrefix(p, out+"/gotext-tools") && strings.HasSuffix(p, ".md") {
				may = append(may, p)
			}
		}
		if err := onlyChanged(before, after, may...); err != nil {
			return fmt.Errorf("%s: %v", v, err)
		}
		name := "gotext-tools"
		if c.Command != name {
			name += "_" + c.Command
		}
		got, ok := after[out+"/"+name+".md"]
		if !ok {
			return fmt.Errorf("%s writes nothing about %s, only %q", v, c.Command, sortedKeys(after))
		}
		got = strings.TrimPrefix(got, "file ")
		if err := describe(x, "markdown", c.Command, got); err != nil {
			return fmt.Errorf("%s: in %s.md, %v:\n%s", v, name, err, cut(got, 1500))
		}
		// the same as on its own
		w := invocation{Tool: "gotext-tools", Args: []string{"docs", "markdown", "-c", c.Command}}
		_, r, err := w.start(x)
		if err == nil {
			err = ranWell(w, r)
		}
		if err != nil {
			return err
		}
		if a, b := autoStamp.ReplaceAllString(got, ""), autoStamp.ReplaceAllString(r.stdout, ""); a != b {
			return fmt.Errorf("%s writes\n%s\n%s writes\n%s", v, cut(a, 1000), w, cut(b, 1000))
		}
		return nil
	}
	doc := r.stdout
	if c.Out != "-" {
		if r.stdout != "" {
			return fmt.Errorf("%s also writes to standard output: %s", v, cut(r.stdout, 300))
		}
		err = onlyChanged(before, after, c.Out)
		f, ok := after[c.Out]
		if err == nil && !ok {
			err = fmt.Errorf("there is no output")
		}
		doc = strings.TrimPrefix(f, "file ")
	} else {
		err = onlyChanged(before, after)
	}
	if err == nil && strings.Contains(doc, "old content") {
		err = fmt.Errorf("the old content is still there")
	}
	if err == nil {
		err = describe(x, c.Kind, c.Command, doc)
	}
	if err != nil {
		return fmt.Errorf("%s: %v:\n%s", v, err, cut(doc, 1500))
	}
	return nil
}

func init() {
	register("P55", 1500, 15000, "documentation of every command in both formats and as a tree, to standard output, new and existing files and directories, with every spelling of the options, of unknown commands and to impossible places; non-trivial: it is written to a file, or the run must fail", drawP55, checkP55)
}
