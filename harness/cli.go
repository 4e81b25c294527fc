package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"pgregory.net/rapid"
)

// --- P40-P47: the command-line tools --------------------------------------------------

// cliFile is a file (or empty directory) that a tool finds when it starts.
type cliFile struct {
	Path string
	Data []byte
	Dir  bool `json:",omitempty"`
	Link bool `json:",omitempty"` // reached by a symbolic link
}

// invocation is one run of a tool in a directory with some files.
type invocation struct {
	Tool  string
	Args  []string
	Stdin []byte
	Files []cliFile
}

// scratch stands for the directory of the run in arguments and files.
const scratch = "@SCRATCH@"

// setup creates the files of the invocation in a fresh directory.
func (v invocation) setup(x *Ctx) string {
	dir := x.Dir()
	for i, f := range v.Files {
		p := filepath.Join(dir, f.Path)
		if f.Dir {
			must(os.MkdirAll(p, 0o755))
			continue
		}
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		if f.Link {
			target := filepath.Join(dir, "targets", fmt.Sprint(i))
			must(os.MkdirAll(filepath.Dir(target), 0o755))
			rel, err := filepath.Rel(filepath.Dir(p), target)
			must(err)
			must(os.Symlink(rel, p))
			p = target
		}
		must(os.WriteFile(p, bytes.ReplaceAll(f.Data, []byte(scratch), []byte(dir)), 0o644))
	}
	return dir
}

// linked makes some of the inputs drawn so far symbolic links to files elsewhere.
func (v *invocation) linked(t *rapid.T) {
	for i := range v.Files {
		if !v.Files[i].Dir && intn(t, "link", 0, 999)%23 == 11 {
			v.Files[i].Link = true
		}
	}
}

// decoys puts other files in the working directory, with the names of files in dir.
func (v *invocation) decoys(t *rapid.T, dir, data string) {
	if dir == "" || dir == "." {
		return
	}
	there := map[string]bool{}
	for _, f := range v.Files {
		there[filepath.Clean(f.Path)] = true
	}
	for _, f := range v.Files {
		p, ok := strings.CutPrefix(f.Path, dir+"/")
		if ok && !f.Dir && !there[p] && intn(t, "decoy", 0, 999)%13 == 6 {
			there[p] = true
			v.Files = append(v.Files, cliFile{Path: p, Data: []byte(data)})
		}
	}
}

// run runs the tool in dir. A crash or a run without end is an error.
func (v invocation) run(x *Ctx, dir string) (toolResult, error) {
	args := make([]string, len(v.Args))
	for i, a := range v.Args {
		args[i] = strings.ReplaceAll(a, scratch, dir)
	}
	r := runTool(dir, string(v.Stdin), filepath.Join(x.Tools, v.Tool), args...)
	if r.killed {
		return r, fmt.Errorf("%s does not end", v)
	}
	if strings.Contains(r.stderr, "goroutine ") && (strings.Contains(r.stderr, "panic:") || strings.Contains(r.stderr, "fatal error:")) {
		return r, fmt.Errorf("%s crashes: %s", v, cut(r.stderr, 1500))
	}
	return r, nil
}

func (v invocation) String() string { return fmt.Sprintf("%s %q", v.Tool, v.Args) }

// start sets the directory up and runs the tool.
func (v invocation) start(x *Ctx) (string, toolResult, error) {
	dir := v.setup(x)
	r, err := v.run(x, dir)
	return dir, r, err
}

// snapshot is the content of all files below dir.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	must(filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		must(err)
		rel, err := filepath.Rel(dir, p)
		must(err)
		switch {
		case i.IsDir():
			m[rel] = "directory"
		case i.Mode()&os.ModeSymlink != 0:
			l, err := os.Readlink(p)
			must(err)
			m[rel] = "link to " + l
		case i.Mode().IsRegular():
			m[rel] = "file " + readFile(p)
		default:
			m[rel] = "other"
		}
		return nil
	}))
	return m
}

// onlyChanged reports a file that differs between two snapshots, unless it is one of may.
func onlyChanged(before, after map[string]string, may ...string) error {
	ok := map[string]bool{}
	for _, m := range may {
		ok[filepath.Clean(m)] = true
	}
	for _, p := range sortedKeys(before) {
		if a, there := after[p]; !ok[p] && (!there || a != before[p]) {
			if !there {
				return fmt.Errorf("%s was removed", p)
			}
			return fmt.Errorf("%s changed from %q to %q", p, cut(before[p], 400), cut(a, 400))
		}
	}
	for _, p := range sortedKeys(after) {
		if _, there := before[p]; !there && !ok[p] {
			return fmt.Errorf("%s was created: %q", p, cut(after[p], 400))
		}
	}
	return nil
}

// refused judges a run that must fail: a status, a message, no output and no change.
func refused(v invocation, r toolResult, before map[string]string, dir, why string) error {
	if r.code == 0 {
		return fmt.Errorf("%s: %s, but the exit status is 0\nstdout: %s\nstderr: %s", v, why, cut(r.stdout, 600), cut(r.stderr, 600))
	}
	if strings.TrimSpace(r.stderr) == "" {
		return fmt.Errorf("%s: %s, but there is no message", v, why)
	}
	if r.stdout != "" {
		return fmt.Errorf("%s: %s, but there is output: %s", v, why, cut(r.stdout, 600))
	}
	if err := onlyChanged(before, snapshot(dir)); err != nil {
		return fmt.Errorf("%s: %s, but %v", v, why, err)
	}
	return nil
}

func ranWell(v invocation, r toolResult) error {
	if r.code != 0 {
		return fmt.Errorf("%s exits %d: %s", v, r.code, cut(r.stderr, 1500))
	}
	return nil
}

// --- PO files ---

// cliPO is a PO file: its text, and the messages in it (in the order of reading).
type cliPO struct {
	Name    string
	Text    string
	Entries po.Entries
}

func (p cliPO) file() cliFile { return cliFile{Path: p.Name, Data: []byte(p.Text)} }

// poFileOf renders messages in some layout.
func poFileOf(t *rapid.T, name string, es po.Entries) cliPO {
	es = canonAll(es)
	for i := range es {
		for j, l := range es[i].Locations {
			es[i].Locations[j].File = strings.ReplaceAll(l.File, " ", "_")
		}
		if es[i].Plural != "" && len(es[i].Plurals) == 0 {
			es[i].Plurals = po.PluralEntries{{ID: 0}, {ID: 1}}
		}
	}
	p := cliPO{Name: name, Entries: activeThenObsolete(es)}
	if chance(t, "layout", 25) {
		p.Text, _ = renderLayout(t, es)
	} else {
		p.Text = plainPO(es)
	}
	return p
}

// badPO draws text that is no PO file.
func badPO(t *rapid.T) string {
	return drawDamage(t).Text
}

// cliOpts are messages that survive being written and read.
var cliOpts = entryOpts{meta: true, obsolete: true, fuzzy: true, untrans: true, plural: true, context: true}

// readOutput reads a PO file that a tool wrote.
func readOutput(v invocation, s string) (po.Entries, error) {
	es, err := readCanonicalPO(s)
	if err != nil {
		return nil, fmt.Errorf("%s: the output is not a PO file: %v\n%s", v, err, cut(s, 1500))
	}
	return es, nil
}

var ansiRE = regexp.MustCompile("\x1b\\[[0-9;]*m")

// poView are options of the tools that alter how the output is written.
type poView struct {
	NoWrap, Color, NoLocation bool
	AddLocation               string
}

// drawView draws options. The colours in the output are told apart from the texts
// of the inputs only if these have no escape sequences themselves.
func drawView(t *rapid.T, inputs ...string) poView {
	w := poView{NoWrap: chance(t, "nowrap", 40), Color: chance(t, "color", 15)}
	if strings.Contains(strings.Join(inputs, "\n"), "\x1b") {
		w.Color = false
	}
	if chance(t, "locations", 30) {
		w.NoLocation = chance(t, "nolocation", 40)
		if !w.NoLocation {
			w.AddLocation = oneOf(t, "addlocation", "full", "file", "never")
		}
	}
	return w
}

func (w poView) args() []string {
	var a []string
	if w.NoWrap {
		a = append(a, "--no-wrap")
	}
	if w.Color {
		a = append(a, "--color=always")
	}
	if w.NoLocation {
		a = append(a, "--no-location")
	}
	if w.AddLocation != "" {
		a = append(a, "--add-location="+w.AddLocation)
	}
	return a
}

// plain removes the colours, which have to be there if they were asked for.
func (w poView) plain(s string) (string, error) {
	if !w.Color {
		return s, nil
	}
	r := ansiRE.ReplaceAllString(s, "")
	if r == s && strings.Contains(s, "msgid") {
		return "", fmt.Errorf("colours were asked for, and there are none in %s", cut(s, 600))
	}
	return r, nil
}

// apply is what the options make of messages.
func (w poView) apply(es po.Entries) po.Entries {
	r := canonAll(es)
	for i := range r {
		switch {
		case w.NoLocation || w.AddLocation == "never":
			r[i].Locations = nil
		case w.AddLocation == "file":
			for j := range r[i].Locations {
				r[i].Locations[j].Line = -1
			}
		}
	}
	return r
}

var wrapPoint = regexp.MustCompile(`^(?:#~ )?[^"#]*"(?:[^"\\]|\\.)*?\\n[^"]`)

// wrapped judges the use of lines: without wrapping each string is in the line of its keyword,
// otherwise it is continued in a new line after each line end in it.
func (w poView) wrapped(s string) error {
	for _, l := range strings.Split(s, "\n") {
		switch {
		case w.NoWrap && strings.HasPrefix(strings.TrimPrefix(l, "#~ "), `"`):
			return fmt.Errorf("without wrapping the output has the line %s", l)
		case !w.NoWrap && wrapPoint.MatchString(l):
			return fmt.Errorf("with wrapping the output has the line %s", l)
		}
	}
	return nil
}

// sameSet compares messages regardless of their order.
func sameSet(got, want po.Entries) error {
	return diffMaps(got, want, canon)
}

func uids(es po.Entries) []string {
	var r []string
	for _, e := range es {
		r = append(r, uid(e))
	}
	return r
}

func sortedStrings(s []string) []string {
	r := append([]string(nil), s...)
	sort.Strings(r)
	return r
}
