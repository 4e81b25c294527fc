package main

import (
	"bytes"
	"fmt"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"pgregory.net/rapid"
)

// --- P25: source trees ---------------------------------------------------------------

// treeNode is a file of a source tree.
type treeNode struct {
	Path string // relative to the tree
	IDs  []string
	Kind string // "", "other" (no Go file), "broken" (no valid Go), "dangling" (a link to nothing), "dir" (an empty directory)
}

// text is the content of the file; its n-th id is in line 3+n.
func (n treeNode) text() string {
	if n.Kind == "other" {
		return "not Go at all: gotext.Get(\"no\")\n"
	}
	var b strings.Builder
	b.WriteString("package p\nimport \"github.com/leonelquinteros/gotext\"\nvar _ = []string{\n")
	for _, id := range n.IDs {
		fmt.Fprintf(&b, "\tgotext.Get(%q),\n", id)
	}
	b.WriteString("}\n")
	if n.Kind == "broken" {
		b.WriteString(") {\n")
	}
	return b.String()
}

type p25Case struct {
	Nodes   []treeNode
	Roots   []string // spelled paths of files and directories; "missing…" is one that does not exist
	Exclude []string
	Verbose bool
	Chdir   bool // relative paths
	Split   int  // the entry point
}

func (c p25Case) node(p string) *treeNode {
	for i := range c.Nodes {
		if c.Nodes[i].Path == p {
			return &c.Nodes[i]
		}
	}
	return nil
}

// spell draws another spelling of a path.
func spell(t *rapid.T, p string) string {
	switch intn(t, "spelling", 0, 9) {
	case 0:
		return "./" + p
	case 1:
		return "zz/../" + p
	case 2:
		if i := strings.LastIndex(p, "/"); i > 0 {
			return p[:i] + "/./" + p[i+1:]
		}
		return ".//" + p
	case 3:
		if i := strings.Index(p, "/"); i > 0 {
			return p[:i] + "//" + p[i+1:]
		}
	}
	return p
}

func treePath(t *rapid.T) (dir, name string) {
	dirs := []string{"", "", "a", "ab", "b", "a/sub", "a/sub2", "a/sub/deep", "vendor/x", ".hidden", "a b", "dir.go", "testdata", "ü", "internal/_x", "..c", "a/...", "a/..sub"}
	names := []string{"x.go", "x.go", "y.go", "x_test.go", ".go", "a.b.go", "main.go", "ü.go", "sp ace.go", "_x.go", "..x.go", "...go"}
	return oneOf(t, "dir", dirs...), oneOf(t, "file", names...)
}

func drawP25(t *rapid.T) p25Case {
	c := p25Case{Verbose: chance(t, "verbose", 30), Chdir: chance(t, "relative", 50), Split: intn(t, "split", 0, 4)}
	faults := chance(t, "faults", 25)
	for i := intn(t, "nfiles", 1, 8); i > 0; i-- {
		d, n := treePath(t)
		node := treeNode{Path: filepath.Join(d, n)}
		if c.node(node.Path) != nil {
			continue
		}
		switch k := intn(t, "kind", 0, 19); {
		case k < 3:
			node.Kind, node.Path = "other", filepath.Join(d, oneOf(t, "othername", "notes.txt", "go", "x.GO", "x.go.bak", "go.mod", "xgo", "README", "x.go~"))
		case k == 3:
			node.Kind, node.Path = "dir", filepath.Join(d, oneOf(t, "emptydir", "empty", "empty.go"))
		case k < 6 && faults:
			node.Kind = "broken"
		case k < 8 && faults:
			node.Kind = "dangling"
		}
		if c.node(node.Path) != nil {
			continue
		}
		if node.Kind == "" || node.Kind == "broken" {
			for j := intn(t, "nids", 0, 3); j > 0; j-- {
				node.IDs = append(node.IDs, oneOf(t, "id", "one", "two", "three", fmt.Sprintf("m%d-%d", len(c.Nodes), j)))
			}
		}
		c.Nodes = append(c.Nodes, node)
	}
	// the places of the tree
	var files, dirs []string
	seen := map[string]bool{}
	for _, n := range c.Nodes {
		if n.Kind != "other" && n.Kind != "dir" {
			files = append(files, n.Path)
		}
		d := n.Path
		if n.Kind == "dir" {
			d += "/."
		}
		for d = filepath.Dir(d); ; d = filepath.Dir(d) {
			if !seen[d] {
				seen[d] = true
				dirs = append(dirs, d)
			}
			if d == "." {
				break
			}
		}
	}
	sort.Strings(dirs)
	place := func() string {
		if len(files) > 0 && chance(t, "afile", 40) {
			return oneOf(t, "file", files...)
		}
		if chance(t, "top", 25) {
			return "."
		}
		return oneOf(t, "dir", dirs...)
	}
	for i := intn(t, "nroots", 1, 4); i > 0; i-- {
		if faults && chance(t, "missing", 10) {
			c.Roots = append(c.Roots, oneOf(t, "missingname", "missing.go", "missing", "a/missing.go"))
			continue
		}
		p := spell(t, place())
		if chance(t, "slash", 15) && !strings.HasSuffix(p, ".go") {
			p += "/"
		}
		c.Roots = append(c.Roots, p)
	}
	if chance(t, "excludes", 50) {
		for i := intn(t, "nexcl", 1, 3); i > 0; i-- {
			switch intn(t, "excl", 0, 9) {
			case 0:
				c.Exclude = append(c.Exclude, oneOf(t, "nothing", "", "nowhere", "x", "a/su", "*.go", "a*"))
			case 1:
				c.Exclude = append(c.Exclude, oneOf(t, "name", "x.go", "sub", "a", "missing.go", "a/sub"))
			default:
				c.Exclude = append(c.Exclude, spell(t, place()))
			}
		}
	}
	return c
}

// within tells whether path p is d or below.
func within(p, d string) bool {
	return d == "." || p == d || strings.HasPrefix(p, d+"/")
}

func (c p25Case) excluded(p string) bool {
	for _, e := range c.Exclude {
		if e != "" && within(p, filepath.Clean(e)) {
			return true
		}
	}
	return false
}

// model returns the files that are read, in no particular order, and whether an error is due.
func (c p25Case) model() (files []treeNode, fault bool) {
	taken := map[string]bool{}
	for _, r := range c.Roots {
		r = filepath.Clean(r)
		exists := false
		for _, n := range c.Nodes {
			if within(n.Path, r) {
				exists = true
			}
		}
		if !exists && !c.excluded(r) {
			fault = true
		}
		for _, n := range c.Nodes {
			if !within(n.Path, r) || taken[n.Path] || c.excluded(n.Path) || n.Kind == "dir" || n.Kind == "other" {
				continue
			}
			taken[n.Path] = true
			if n.Kind != "" {
				fault = true
				continue
			}
			files = append(files, n)
		}
	}
	return files, fault
}

func checkP25(c p25Case, x *Ctx) error {
	dir := x.Dir()
	must(os.MkdirAll(filepath.Join(dir, "zz"), 0o777))
	for _, n := range c.Nodes {
		p := filepath.Join(dir, n.Path)
		must(os.MkdirAll(filepath.Dir(p), 0o777))
		switch n.Kind {
		case "dir":
			must(os.MkdirAll(p, 0o777))
		case "dangling":
			must(os.Symlink("nowhere-at-all", p))
		default:
			must(os.WriteFile(p, []byte(n.text()), 0o666))
		}
	}
	abs := func(l []string) []string {
		r := []string{}
		for _, p := range l {
			if p != "" && !c.Chdir {
				p = dir + "/" + p
			}
			r = append(r, p)
		}
		return r
	}
	if c.Chdir {
		must(os.Chdir(dir))
		defer func() { must(os.Chdir("/")) }()
	}
	files, fault := c.model()
	x.NonTrivial(len(files) > 1 || fault || len(c.Exclude) > 0)
	x.Label("must be an error", fault)
	x.Label("several files", len(files) > 1)
	x.Label("excludes", len(c.Exclude) > 0)

	roots := abs(c.Roots)
	var logged bytes.Buffer
	opts := []goparse.Option{goparse.WithNoHeader(true), goparse.WithExclude(abs(c.Exclude)...), goparse.WithVerbose(c.Verbose)}
	if c.Verbose {
		opts = append(opts, goparse.WithLogger(log.New(&logged, "", 0)))
	}
	var f *po.File
	var err error
	switch {
	case c.Split == 0 && len(roots) == 1:
		f, err = goparse.FromPath(roots[0], opts...)
	case c.Split == 1 && len(roots) == 1:
		var p *goparse.Parser
		if p, err = goparse.NewParser(roots[0], opts...); err == nil {
			p.Parse()
			f, err = p.Parse(), p.Error()
		}
	case c.Split == 2:
		var p *goparse.Parser
		if p, err = goparse.NewParserFromPaths(roots, opts...); err == nil {
			f, err = p.Parse(), p.Error()
			if err == nil && len(p.Files()) != len(files) {
				return fmt.Errorf("Files returns %d files, want %d", len(p.Files()), len(files))
			}
		}
	default:
		f, err = goparse.FromPaths(roots, opts...)
	}
	if len(files) > 1 && !fault {
		if err := sameName(dir, files[0], files[1]); err != nil {
			return err
		}
	}
	if fault {
		if err == nil {
			return fmt.Errorf("no error, although a source is missing or broken")
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("unexpected error: %v", err)
	}

	want := map[string][]string{}
	for _, n := range files {
		for i, id := range n.IDs {
			want[id] = append(want[id], fmt.Sprintf("%s:%d", n.Path, 4+i))
		}
	}
	got := map[string][]string{}
	for _, e := range f.Entries {
		if _, ok := got[e.ID]; ok || e.Context != "" || e.Plural != "" {
			return fmt.Errorf("message twice or with context or plural: %s", showEntry(e))
		}
		got[e.ID] = nil
		for _, l := range e.Locations {
			p := filepath.Clean(l.File)
			if !c.Chdir {
				p = strings.TrimPrefix(p, dir+"/")
			}
			got[e.ID] = append(got[e.ID], fmt.Sprintf("%s:%d", p, l.Line))
		}
	}
	for _, m := range []map[string][]string{got, want} {
		for _, l := range m {
			sort.Strings(l)
		}
	}
	if js(got) != js(want) {
		return fmt.Errorf("extracted %s\nwant %s", js(got), js(want))
	}
	return nil
}

// sameName checks that open files are told apart even if they have the same name.
func sameName(dir string, a, b treeNode) error {
	var handles []*os.File
	want := map[string]int{}
	p := filepath.Join(dir, "zz/handle.go")
	for _, n := range []treeNode{a, b} {
		must(os.WriteFile(p, []byte(n.text()), 0o666))
		f, err := os.Open(p)
		must(err)
		defer f.Close()
		must(os.Remove(p))
		handles = append(handles, f)
		for _, id := range n.IDs {
			want[id]++
		}
	}
	parser, err := goparse.NewParserFromFiles(handles, goparse.WithNoHeader(true))
	if err != nil {
		return fmt.Errorf("open files with the same name: %v", err)
	}
	f := parser.Parse()
	if err := parser.Error(); err != nil {
		return fmt.Errorf("open files with the same name: %v", err)
	}
	got := map[string]int{}
	for _, e := range f.Entries {
		got[e.ID] += len(e.Locations)
	}
	if js(got) != js(want) {
		return fmt.Errorf("two open files with the same name have %s, extracted %s", js(want), js(got))
	}
	return nil
}

func init() {
	register("P25", 16000, 320000, "source trees of one to eight Go and other files in nested directories, lists of one to four roots in varying spellings with repetitions and overlaps, exclusions of files and directories, missing, dangling and invalid sources; non-trivial: several files, exclusions or a fault", drawP25, checkP25)
}
