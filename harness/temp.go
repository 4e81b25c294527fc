package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
	"pgregory.net/rapid"
)

// --- P33: temporary options ------------------------------------------------

type goOpts struct {
	All, NoHeader, NoClean, Verbose, Custom bool
}

func drawGoOpts(t *rapid.T) goOpts {
	return goOpts{All: chance(t, "all", 40), NoHeader: chance(t, "nohdr", 40), NoClean: chance(t, "noclean", 40), Verbose: chance(t, "verb", 10), Custom: chance(t, "custom", 30)}
}

func fixedHeaderConfig() *po.HeaderConfig {
	return &po.HeaderConfig{Nplurals: 2, Plural: "(n != 1)", ProjectIDVersion: "p", Language: "es", POTCreationDate: "2020-01-01 00:00+0000", MediaType: "text/plain", Charset: "UTF-8"}
}

func (o goOpts) options() []goparse.Option {
	r := []goparse.Option{
		goparse.WithExtractAll(o.All), goparse.WithNoHeader(o.NoHeader), goparse.WithCleanDuplicates(!o.NoClean), goparse.WithVerbose(o.Verbose),
		goparse.WithHeaderConfig(fixedHeaderConfig()),
	}
	if o.Custom {
		h := po.Header{Fields: []po.HeaderField{{Key: "X-Custom", Value: "1"}}}
		r = append(r, goparse.WithCustomHeader(&h))
	} else {
		r = append(r, goparse.WithCustomHeader(nil))
	}
	return r
}

const goSample = "package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\nfunc f() {\n\tgotext.Get(\"one\")\n\tgotext.GetN(\"one\", \"many\", 2)\n\tgotext.GetC(\"one\", \"ctx\")\n\tprintln(\"plain\", `raw`)\n\tgotext.Get(\"one\")\n}\n"

// optChoice is a list of options, possibly with a replacement of the whole configuration inside.
type optChoice struct {
	Few     int // how many of the options are given
	Replace string
	PO      poWriteOpts
	MO      moWriteOpts
	Read    poReadOpts
	MustBe  bool
	Endian  parse.Endianness
	Go      goOpts
	Rep     *optChoice
}

func drawOptChoice(t *rapid.T, kind string, nested bool) optChoice {
	c := optChoice{Few: intn(t, "few", 0, 100)}
	switch kind {
	case "po writer":
		c.PO = drawWriteOpts(t)
	case "mo writer":
		c.MO = drawMoWriteOpts(t)
	case "po reader":
		c.Read = drawReadOpts(t)
	case "mo reader":
		c.MustBe, c.Endian = chance(t, "must", 50), oneOf(t, "endian", parse.NativeEndian, parse.LittleEndian, parse.BigEndian)
	default:
		c.Go = drawGoOpts(t)
	}
	if nested && chance(t, "replace", 45) {
		c.Replace = oneOf(t, "where", "before", "after")
		r := drawOptChoice(t, kind, false)
		c.Rep = &r
	}
	return c
}

func few[T any](n int, xs []T) []T {
	if len(xs) == 0 || n >= 100 {
		return xs
	}
	return xs[:n*(len(xs)+1)/100]
}

func mixed[T any](c optChoice, xs []T, full func(optChoice) T) []T {
	xs = few(c.Few, xs)
	switch c.Replace {
	case "before":
		return append([]T{full(*c.Rep)}, xs...)
	case "after":
		return append(xs[:len(xs):len(xs)], full(*c.Rep))
	}
	return xs
}

func (c optChoice) poWrite() []compile.PoOption {
	return mixed(c, c.PO.options(), func(r optChoice) compile.PoOption {
		if r.Few < 20 {
			return compile.PoWithConfig(compile.PoConfig{})
		}
		return compile.PoWithConfig(compile.DefaultPoConfig(r.PO.options()...))
	})
}

func (c optChoice) moWrite() []compile.MoOption {
	return mixed(c, c.MO.options(), func(r optChoice) compile.MoOption {
		if r.Few < 20 {
			return compile.MoWithConfig(compile.MoConfig{})
		}
		return compile.MoWithConfig(compile.DefaultMoConfig(r.MO.options()...))
	})
}

func (c optChoice) poRead() []parse.PoOption {
	return mixed(c, c.Read.options(), func(r optChoice) parse.PoOption {
		if r.Few < 20 {
			return parse.PoWithConfig(parse.PoConfig{})
		}
		return parse.PoWithConfig(parse.DefaultPoConfig(r.Read.options()...))
	})
}

func (c optChoice) moRead() []parse.MoOption {
	o := []parse.MoOption{parse.MoWithMustBeSorted(c.MustBe), parse.MoWithEndianness(c.Endian)}
	return mixed(c, o, func(r optChoice) parse.MoOption {
		if r.Few < 20 {
			return parse.MoWithConfig(parse.MoConfig{})
		}
		return parse.MoWithConfig(parse.DefaultMoConfig(parse.MoWithMustBeSorted(r.MustBe), parse.MoWithEndianness(r.Endian)))
	})
}

func (c optChoice) goRead() []goparse.Option {
	return mixed(c, c.Go.options(), func(r optChoice) goparse.Option {
		if r.Few < 20 {
			return goparse.WithConfig(goparse.Config{HeaderConfig: fixedHeaderConfig()})
		}
		return goparse.WithConfig(goparse.DefaultConfig(r.Go.options()...))
	})
}

type tempOp struct {
	Kind string // plain, temp, applied, nested, zero
	A, B optChoice
	Via  int // entry point
}

type p33Case struct {
	Kind    string
	Entries po.Entries
	Text    string
	Base    optChoice
	Ops     []tempOp
}

// subject is a reader or compiler under temporary options.
type subject struct {
	run     func(temp *optChoice, via int) string // nil: without options
	apply   func(optChoice)
	restore func()
	config  func() any
}

// publicFields compares what a user can see of a configuration.
func publicFields(v any) []any {
	r := reflect.ValueOf(v)
	var out []any
	for i := 0; i < r.NumField(); i++ {
		if r.Type().Field(i).IsExported() && r.Type().Field(i).Name != "Highlight" {
			f := r.Field(i).Interface()
			if s, ok := f.([]string); ok && len(s) == 0 {
				f = []string(nil)
			}
			out = append(out, f)
		}
	}
	return out
}

func showFile(f *po.File, err error) string {
	if f == nil {
		return fmt.Sprintf("no catalog, %v", err)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s, %v:", f.Name, err)
	for _, e := range f.Entries {
		b.WriteString("\n" + showEntry(e))
	}
	return b.String()
}

// failedWrite writes to where nothing can be written; what it returns is not compared.
func failedWrite(x *Ctx, via int, toWriter func(io.Writer) error, toFile func(string) error) string {
	if via == 4 {
		toWriter(brokenWriter{})
	} else {
		toFile(filepath.Join(x.Dir(), "missing", "f"))
	}
	return ""
}

type brokenWriter struct{}

func (brokenWriter) Write([]byte) (int, error) { return 0, fmt.Errorf("broken") }

func (c p33Case) subject(x *Ctx, base ...optChoice) subject {
	switch c.Kind {
	case "po writer":
		var o []compile.PoOption
		for _, b := range base {
			o = append(o, b.poWrite()...)
		}
		s := compile.NewPo(&po.File{Name: "n", Entries: clone(c.Entries)}, o...)
		return subject{
			run: func(temp *optChoice, via int) string {
				if temp == nil {
					return s.ToString()
				}
				switch via {
				case 0:
					return s.ToStringWithOptions(temp.poWrite()...)
				case 1:
					return string(s.ToBytesWithOptions(temp.poWrite()...))
				case 2:
					p := filepath.Join(x.Dir(), "f")
					if err := s.ToFileWithOptions(p, temp.poWrite()...); err != nil {
						return err.Error()
					}
					return readFile(p)
				}
				if via > 3 {
					return failedWrite(x, via, func(w io.Writer) error { return s.ToWriterWithOptions(w, temp.poWrite()...) },
						func(p string) error { return s.ToFileWithOptions(p, temp.poWrite()...) })
				}
				var b bytes.Buffer
				s.ToWriterWithOptions(&b, temp.poWrite()...)
				return b.String()
			},
			apply: func(o optChoice) { s.Config.ApplyOptions(o.poWrite()...) }, restore: s.Config.RestoreLastCfg, config: func() any { return s.Config },
		}
	case "mo writer":
		var o []compile.MoOption
		for _, b := range base {
			o = append(o, b.moWrite()...)
		}
		s := compile.NewMo(&po.File{Name: "n", Entries: clone(c.Entries)}, o...)
		return subject{
			run: func(temp *optChoice, via int) string {
				if temp == nil {
					return string(s.ToBytes())
				}
				switch via {
				case 0, 1:
					return string(s.ToBytesWithOptions(temp.moWrite()...))
				case 2:
					p := filepath.Join(x.Dir(), "f")
					if err := s.ToFileWithOptions(p, temp.moWrite()...); err != nil {
						return err.Error()
					}
					return readFile(p)
				}
				if via > 3 {
					return failedWrite(x, via, func(w io.Writer) error { return s.ToWriterWithOptions(w, temp.moWrite()...) },
						func(p string) error { return s.ToFileWithOptions(p, temp.moWrite()...) })
				}
				var b bytes.Buffer
				s.ToWriterWithOptions(&b, temp.moWrite()...)
				return b.String()
			},
			apply: func(o optChoice) { s.Config.ApplyOptions(o.moWrite()...) }, restore: s.Config.RestoreLastCfg, config: func() any { return s.Config },
		}
	case "po reader":
		var o []parse.PoOption
		for _, b := range base {
			o = append(o, b.poRead()...)
		}
		s := parse.NewPoFromString(c.Text, "n.po", o...)
		return subject{
			run: func(temp *optChoice, via int) string {
				var f *po.File
				if temp == nil {
					f = s.Parse()
				} else {
					f = s.ParseWithOptions(temp.poRead()...)
				}
				return showFile(f, s.Error())
			},
			apply: func(o optChoice) { s.Config.ApplyOptions(o.poRead()...) }, restore: s.Config.RestoreLastCfg, config: func() any { return s.Config },
		}
	case "mo reader":
		var o []parse.MoOption
		for _, b := range base {
			o = append(o, b.moRead()...)
		}
		s := parse.NewMoFromBytes([]byte(c.Text), "n.mo", o...)
		return subject{
			run: func(temp *optChoice, via int) string {
				var f *po.File
				if temp == nil {
					f = s.Parse()
				} else {
					f = s.ParseWithOptions(temp.moRead()...)
				}
				return showFile(f, s.Error())
			},
			apply: func(o optChoice) { s.Config.ApplyOptions(o.moRead()...) }, restore: s.Config.RestoreLastCfg, config: func() any { return s.Config },
		}
	}
	o := []goparse.Option{goparse.WithHeaderConfig(fixedHeaderConfig())}
	for _, b := range base {
		o = append(o, b.goRead()...)
	}
	s, err := goparse.NewParserFromString(c.Text, "n.go", o...)
	must(err)
	return subject{
		run: func(temp *optChoice, via int) string {
			var f *po.File
			if temp == nil {
				f = s.Parse()
			} else {
				f = s.ParseWithOptions(temp.goRead()...)
			}
			return showFile(f, s.Error())
		},
		apply: func(o optChoice) { s.Config.ApplyOptions(o.goRead()...) }, restore: s.Config.RestoreLastCfg, config: func() any { return s.Config },
	}
}

func drawP33(t *rapid.T) p33Case {
	c := p33Case{Kind: oneOf(t, "subject", "po writer", "mo writer", "po reader", "mo reader", "go reader")}
	switch c.Kind {
	case "po writer", "mo writer":
		c.Entries = anyEntries(t, 3)
	case "po reader":
		c.Text = plainPO(anyEntries(t, 3))
	case "mo reader":
		es := moEntries(t, 0, 3)
		if chance(t, "sorted", 60) {
			es = sortedByKey(es)
		}
		var ids, strs []string
		for _, e := range es {
			ids, strs = append(ids, moID(e)), append(strs, moStr(e))
		}
		c.Text = string(encodeMO(oneOf(t, "order", byteOrders...), ids, strs))
	default:
		c.Text = goSample
	}
	switch c.Kind {
	case "po reader":
		if chance(t, "damaged", 25) {
			c.Text = string(mutate(t, []byte(c.Text), poTokens))
		}
	case "mo reader":
		if chance(t, "damaged", 25) {
			c.Text = string(mutate(t, []byte(c.Text), []string{"\x00", "\xff\xff\xff\xff", "\x01\x00\x00\x00"}))
		}
	}
	c.Base = drawOptChoice(t, c.Kind, true)
	for i := intn(t, "nops", 1, 6); i > 0; i-- {
		op := tempOp{Kind: oneOf(t, "op", "temp", "temp", "temp", "plain", "applied", "nested", "zero"), Via: intn(t, "via", 0, 3)}
		if strings.HasSuffix(c.Kind, "writer") && chance(t, "failing", 20) {
			op.Via = intn(t, "failing via", 4, 5)
		}
		if op.Kind != "plain" && op.Kind != "zero" {
			op.A = drawOptChoice(t, c.Kind, true)
		}
		if op.Kind == "nested" {
			op.B = drawOptChoice(t, c.Kind, true)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkP33(c p33Case, x *Ctx) error {
	x.Label(c.Kind, true)
	s := c.subject(x, c.Base)
	fresh := func(o ...optChoice) string {
		return c.subject(x, append([]optChoice{c.Base}, o...)...).run(nil, 0)
	}
	plain := fresh()
	want := publicFields(s.config())
	same := func(step string, got, want string) error {
		if got != want {
			return fmt.Errorf("%s: the result is not the one of a fresh %s:\n%s\nfresh:\n%s", step, c.Kind, got, want)
		}
		return nil
	}
	effects := 0
	for i, op := range c.Ops {
		step := fmt.Sprintf("step %d (%s)", i, op.Kind)
		x.Label("op "+op.Kind, true)
		x.Label("whole configuration replaced", op.A.Replace != "")
		x.Label("write that fails", op.Via > 3)
		switch op.Kind {
		case "temp":
			w := fresh(op.A)
			if w != plain {
				effects++
			}
			if got := s.run(&op.A, op.Via); op.Via < 4 {
				if err := same(step, got, w); err != nil {
					return err
				}
			}
		case "applied":
			s.apply(op.A)
			w := fresh(op.A)
			if w != plain {
				effects++
			}
			if err := same(step, s.run(nil, 0), w); err != nil {
				return err
			}
			s.restore()
		case "nested":
			s.apply(op.A)
			if got := s.run(&op.B, op.Via); op.Via < 4 {
				if err := same(step, got, fresh(op.A, op.B)); err != nil {
					return err
				}
			}
			if err := same(step+" back in the outer options", s.run(nil, 0), fresh(op.A)); err != nil {
				return err
			}
			s.restore()
		case "zero":
			if err := restoreUnchanged(); err != nil {
				return err
			}
		}
		if got := publicFields(s.config()); !reflect.DeepEqual(got, want) {
			return fmt.Errorf("%s: the configuration is not back to what it was: %v, was %v", step, got, want)
		}
		if err := same(step+", then without options", s.run(nil, 0), plain); err != nil {
			return err
		}
	}
	x.NonTrivial(effects > 0)
	return nil
}

// restoreUnchanged restores configurations that were never changed.
func restoreUnchanged() error {
	a, b, c, d, e := compile.PoConfig{Title: "t"}, compile.MoConfig{Force: true}, parse.PoConfig{SkipHeader: true}, parse.MoConfig{MustBeSorted: true}, goparse.Config{NoHeader: true}
	a.RestoreLastCfg()
	b.RestoreLastCfg()
	c.RestoreLastCfg()
	d.RestoreLastCfg()
	e.RestoreLastCfg()
	if a.Title != "t" || !b.Force || !c.SkipHeader || !d.MustBeSorted || !e.NoHeader {
		return fmt.Errorf("restoring a configuration that was never changed changed it")
	}
	return nil
}

// --- P34: entry points and reuse --------------------------------------------

type p34Case struct {
	Kind string
	Data []byte
	Name string
	Opts optChoice
	Runs int
}

type oneByteReader struct{ r io.Reader }

func (o oneByteReader) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1]
	}
	return o.r.Read(p)
}

func drawP34(t *rapid.T) p34Case {
	c := p34Case{Kind: oneOf(t, "kind", "po", "po", "mo", "go"), Name: oneOf(t, "name", "x.po", "dir/ünï.po", "", "-"), Runs: intn(t, "runs", 2, 4)}
	switch c.Kind {
	case "po":
		s, _ := renderLayout(t, entries(t, allOpts, 0, 4))
		c.Data = []byte(s)
		if chance(t, "damaged", 35) {
			c.Data = mutate(t, c.Data, poTokens)
		}
		c.Opts = drawOptChoice(t, "po reader", true)
	case "mo":
		es := moEntries(t, 0, 4)
		if chance(t, "sorted", 70) {
			es = sortedByKey(es)
		}
		var ids, strs []string
		for _, e := range es {
			ids, strs = append(ids, moID(e)), append(strs, moStr(e))
		}
		c.Data = encodeMO(oneOf(t, "order", byteOrders...), ids, strs)
		if chance(t, "damaged", 35) {
			c.Data = mutate(t, c.Data, []string{"\x00", "\xff\xff\xff\xff", "\x01\x00\x00\x00", "\x04"})
		}
		c.Opts = drawOptChoice(t, "mo reader", true)
	default:
		c.Name = oneOf(t, "goname", "x.go", "dir/ünï.go", "-")
		c.Data = []byte(goSample)
		if chance(t, "damaged", 35) {
			c.Data = mutate(t, c.Data, []string{"(", ")", "{", "}", "\"", "`", "gotext.Get(", "//", "/*", "\n", "import"})
		}
		c.Opts = drawOptChoice(t, "go reader", true)
	}
	return c
}

func checkP34(c p34Case, x *Ctx) error {
	dir := x.Dir()
	path := filepath.Join(dir, "cat."+c.Kind)
	must(os.WriteFile(path, c.Data, 0o644))
	open := func() *os.File {
		f, err := os.Open(path)
		must(err)
		return f
	}
	buf := func() []byte { return append(make([]byte, 0, len(c.Data)+32), c.Data...) }
	// A file and a reader of which a part was read before: the rest is the content.
	advanced := func() *os.File {
		p := filepath.Join(dir, "advanced")
		must(os.WriteFile(p, append([]byte("msgid \"before\"\n"), c.Data...), 0o644))
		f, err := os.Open(p)
		must(err)
		_, err = f.Seek(int64(len("msgid \"before\"\n")), io.SeekStart)
		must(err)
		return f
	}
	type ep struct {
		how, name string
		run       func() (*po.File, error)
	}
	var eps []ep
	type parser interface {
		Parse() *po.File
		Error() error
		Errors() []error
	}
	var mk func() (parser, error)
	file := func(r func(*os.File) (*po.File, error)) func() (*po.File, error) {
		return func() (*po.File, error) {
			f := open()
			defer f.Close()
			return r(f)
		}
	}
	rd := func(k int) io.Reader {
		switch k {
		case 1:
			return oneByteReader{bytes.NewReader(c.Data)}
		case 2:
			r := bytes.NewReader(append([]byte("prefix"), c.Data...))
			r.Seek(6, io.SeekStart)
			return r
		}
		return bytes.NewReader(c.Data)
	}
	switch c.Kind {
	case "po":
		o := c.Opts.poRead()
		eps = []ep{
			{"bytes", c.Name, func() (*po.File, error) { return parse.PoFromBytes(buf(), c.Name, o...) }},
			{"string", c.Name, func() (*po.File, error) { return parse.PoFromString(string(c.Data), c.Name, o...) }},
			{"reader", c.Name, func() (*po.File, error) { return parse.PoFromReader(rd(0), c.Name, o...) }},
			{"slow reader", c.Name, func() (*po.File, error) { return parse.PoFromReader(rd(1), c.Name, o...) }},
			{"reader in the middle", c.Name, func() (*po.File, error) { return parse.PoFromReader(rd(2), c.Name, o...) }},
			{"file in the middle", c.Name, func() (*po.File, error) { f := advanced(); defer f.Close(); return parse.PoFromReader(f, c.Name, o...) }},
			{"path", path, func() (*po.File, error) { return parse.Po(path, o...) }},
			{"file", path, file(func(f *os.File) (*po.File, error) { return parse.PoFromFile(f, o...) })},
		}
		mk = func() (parser, error) { return parse.NewPoFromBytes(buf(), c.Name, o...), nil }
	case "mo":
		o := c.Opts.moRead()
		eps = []ep{
			{"bytes", c.Name, func() (*po.File, error) { return parse.MoFromBytes(buf(), c.Name, o...) }},
			{"reader", c.Name, func() (*po.File, error) { return parse.MoFromReader(rd(0), c.Name, o...) }},
			{"slow reader", c.Name, func() (*po.File, error) { return parse.MoFromReader(rd(1), c.Name, o...) }},
			{"reader in the middle", c.Name, func() (*po.File, error) { return parse.MoFromReader(rd(2), c.Name, o...) }},
			{"file in the middle", c.Name, func() (*po.File, error) { f := advanced(); defer f.Close(); return parse.MoFromReader(f, c.Name, o...) }},
			{"path", path, func() (*po.File, error) { return parse.Mo(path, o...) }},
			{"file", path, file(func(f *os.File) (*po.File, error) { return parse.MoFromFile(f, o...) })},
		}
		mk = func() (parser, error) { return parse.NewMoFromBytes(buf(), c.Name, o...), nil }
	default:
		o := append([]goparse.Option{goparse.WithHeaderConfig(fixedHeaderConfig())}, c.Opts.goRead()...)
		eps = []ep{
			{"bytes", c.Name, func() (*po.File, error) { return goparse.FromBytes(buf(), c.Name, o...) }},
			{"string", c.Name, func() (*po.File, error) { return goparse.FromString(string(c.Data), c.Name, o...) }},
			{"reader", c.Name, func() (*po.File, error) { return goparse.FromReader(rd(0), c.Name, o...) }},
			{"slow reader", c.Name, func() (*po.File, error) { return goparse.FromReader(rd(1), c.Name, o...) }},
			{"reader in the middle", c.Name, func() (*po.File, error) { return goparse.FromReader(rd(2), c.Name, o...) }},
			{"file in the middle", c.Name, func() (*po.File, error) { f := advanced(); defer f.Close(); return goparse.FromReader(f, c.Name, o...) }},
			{"path", path, func() (*po.File, error) { return goparse.FromPath(path, o...) }},
			{"paths", path, func() (*po.File, error) { return goparse.FromPaths([]string{path}, o...) }},
			{"file", path, file(func(f *os.File) (*po.File, error) { return goparse.FromFile(f, o...) })},
			{"files", path, file(func(f *os.File) (*po.File, error) { return goparse.FromFiles([]*os.File{f}, o...) })},
		}
		mk = func() (parser, error) { return goparse.NewParserFromBytes(buf(), c.Name, o...) }
	}
	// The name appears in error texts and references.
	norm := func(f *po.File, err error, name string) (string, error) {
		if f != nil && c.Kind != "go" && f.Name != name {
			return "", fmt.Errorf("the catalog is named %q, not %q", f.Name, name)
		}
		if f == nil && err == nil {
			return "", fmt.Errorf("neither catalog nor error")
		}
		if f == nil {
			return "failed", nil
		}
		g := &po.File{Entries: clone(f.Entries)}
		for i := range g.Entries {
			for j := range g.Entries[i].Locations {
				if l := &g.Entries[i].Locations[j]; c.Kind == "go" {
					if l.File != name {
						return "", fmt.Errorf("reference to %q instead of %q", l.File, name)
					}
					l.File = "NAME"
				}
			}
		}
		ok := error(nil)
		if err != nil {
			ok = fmt.Errorf("failed")
		}
		return showFile(g, ok), nil
	}
	var first string
	for i, e := range eps {
		f, err := e.run()
		s, err2 := norm(f, err, e.name)
		if err2 != nil {
			return fmt.Errorf("%s: %v", e.how, err2)
		}
		if i == 0 {
			first = s
			x.Label("accepted", err == nil)
			x.Label("rejected", err != nil)
			x.NonTrivial(f != nil && len(f.Entries) > 0 || err != nil)
		} else if s != first {
			return fmt.Errorf("read from a %s:\n%s\nread from %s:\n%s", e.how, s, eps[0].how, first)
		}
	}
	p, err := mk()
	if err != nil {
		if first != "failed" {
			return fmt.Errorf("reader refused: %v, but read at once it gave\n%s", err, first)
		}
		return nil
	}
	errs := ""
	for i := 0; i < c.Runs; i++ {
		f := p.Parse()
		s, err2 := norm(f, p.Error(), c.Name)
		if err2 != nil {
			return fmt.Errorf("run %d: %v", i, err2)
		}
		if s != first {
			return fmt.Errorf("run %d of the same reader:\n%s\nread at once:\n%s", i, s, first)
		}
		es := fmt.Sprint(p.Errors())
		if i > 0 && es != errs {
			return fmt.Errorf("run %d of the same reader has errors %s, the run before %s", i, es, errs)
		}
		errs = es
	}
	if c.Kind == "go" {
		if err := checkReset(c); err != nil {
			return err
		}
	}
	x.Label(c.Kind, true)
	return nil
}

// checkReset gives new content to a Go file reader that had other content before.
func checkReset(c p34Case) error {
	cfg := goparse.DefaultConfig(c.Opts.goRead()...)
	others := []string{
		"package p\n\nimport other \"github.com/leonelquinteros/gotext\"\n\nvar _ = other.Get(\"before\")\n",
		"package p\n\nvar _ = \"before\"\n", goSample,
	}
	var fresh *goparse.File
	var ferr error
	for i, o := range others {
		f, err := goparse.NewFileFromBytes([]byte(o), "before.go", &cfg)
		must(err)
		f.Entries()
		var from io.Reader = bytes.NewReader(c.Data)
		switch i {
		case 1:
			from = oneByteReader{from}
		case 2:
			from = strings.NewReader(string(c.Data))
		}
		with := &cfg
		if i == 1 { // the default configuration, whatever the old one was
			with = nil
			fresh, ferr = goparse.NewFileFromBytes(c.Data, c.Name, nil)
		} else {
			fresh, ferr = goparse.NewFileFromBytes(c.Data, c.Name, &cfg)
		}
		err = f.Reset(from, c.Name, with)
		if (err == nil) != (ferr == nil) {
			return fmt.Errorf("reset to new content: %v, fresh reader: %v", err, ferr)
		}
		if err != nil {
			continue
		}
		if err := diffEntries(f.Entries(), fresh.Entries()); err != nil {
			return fmt.Errorf("reset to new content differs from a fresh reader: %v", err)
		}
		if fmt.Sprint(f.Errors()) != fmt.Sprint(fresh.Errors()) {
			return fmt.Errorf("reset to new content has errors %v, a fresh reader %v", f.Errors(), fresh.Errors())
		}
	}
	return nil
}

func init() {
	register("P33", 40000, 800000,
		"PO/MO writers, PO/MO readers and Go readers with random base options, 1-6 operations each: plain, with temporary options (including replacement of the whole configuration before or after other options), explicit apply/restore, temporary inside applied, restoring an untouched configuration; non-trivial: at least one temporary option list changed the result",
		drawP33, checkP33)
	register("P34", 20000, 400000,
		"PO, MO and Go content (35% mutated) with random options through every entry point and several runs of one reader; non-trivial: the content has messages or is rejected",
		drawP34, checkP34)
}
