package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"pgregory.net/rapid"
)

// poWriteOpts is a serializable choice of PO writer options.
type poWriteOpts struct {
	Wrap, Omit, NoLoc, CommentFuzzy bool
	AddLoc                          string
	Prefix, Suffix                  string
	Manage, HComments, HFields      bool
	HConfig                         *po.HeaderConfig
	Title, Package, Holder          string
	Foreign, Custom                 bool
	Rune                            rune
	Highlight                       int
	Verbose                         bool
}

func drawWriteOpts(t *rapid.T) poWriteOpts {
	o := poWriteOpts{
		Wrap: chance(t, "wrap", 40), Omit: chance(t, "omit", 15), NoLoc: chance(t, "noloc", 15), CommentFuzzy: chance(t, "commentfuzzy", 15),
		Manage: chance(t, "manage", 25), HComments: chance(t, "hcomments", 40), HFields: chance(t, "hfields", 60),
		Foreign: chance(t, "foreign", 30), Custom: chance(t, "custom", 20), Verbose: chance(t, "verbose", 10),
	}
	o.AddLoc = oneOf(t, "addloc", "full", "full", "file", "never", "")
	if chance(t, "prefix", 20) {
		o.Prefix = text(t, "prefix")
	}
	if chance(t, "suffix", 20) {
		o.Suffix = text(t, "suffix")
	}
	o.Title, o.Package, o.Holder = oneOf(t, "title", "TITLE", "My app", ""), oneOf(t, "pkg", "PKG", "tool 1.0"), oneOf(t, "holder", "Jane Doe", "")
	o.Rune = oneOf(t, "rune", '~', '!', '$', '*', '+', 'x', '(', '\\', 'é', '-', '^')
	if o.Manage && chance(t, "hconfig", 40) {
		c := po.DefaultHeaderConfig(po.HeaderWithLanguage(oneOf(t, "lang", "es", "de")), po.HeaderWithProjectIDVersion(oneOf(t, "proj", "p 1", `say "hi"\`)))
		o.HConfig = &c
	}
	if chance(t, "highlight", 15) {
		o.Highlight = intn(t, "hl", 1, 3)
	}
	return o
}

func (o poWriteOpts) options() []compile.PoOption {
	r := []compile.PoOption{
		compile.PoWithWordWrap(o.Wrap), compile.PoWithOmitHeader(o.Omit), compile.PoWithNoLocation(o.NoLoc), compile.PoWithCommentFuzzy(o.CommentFuzzy),
		compile.PoWithAddLocation(compile.PoLocationMode(o.AddLoc)), compile.PoWithMsgstrPrefix(o.Prefix), compile.PoWithMsgstrSuffix(o.Suffix),
		compile.PoWithManageHeader(o.Manage), compile.PoWithHeaderComments(o.HComments), compile.PoWithHeaderFields(o.HFields),
		compile.PoWithTitle(o.Title), compile.PoWithPackageName(o.Package), compile.PoWithCopyrightHolder(o.Holder), compile.PoWithForeignUser(o.Foreign),
		compile.PoWithUseCustomObsoletePrefix(o.Custom), compile.PoWithCustomObsoletePrefixRune(o.Rune), compile.PoWithVerbose(o.Verbose),
		func(c *compile.PoConfig) { c.HeaderConfig = o.HConfig },
	}
	switch o.Highlight {
	case 1:
		r = append(r, compile.PoWithHighlight(compile.TestHighlight))
	case 2:
		r = append(r, compile.PoWithHighlight(compile.DefaultHighlight))
	case 3:
		r = append(r, compile.PoWithHighlight(compile.CSSClassesHighlighting{}))
	}
	return r
}

// moWriteOpts is a serializable choice of MO writer options.
type moWriteOpts struct {
	Endian         compile.Endianness
	NoHash         bool
	NoPurge        bool
	NoSort         bool
	IgnoreErrors   bool
	Verbose, Force bool
}

func drawMoWriteOpts(t *rapid.T) moWriteOpts {
	return moWriteOpts{
		Endian: oneOf(t, "endian", compile.NativeEndian, compile.LittleEndian, compile.BigEndian),
		NoHash: chance(t, "nohash", 30), NoPurge: chance(t, "nopurge", 20), NoSort: chance(t, "nosort", 20), Verbose: chance(t, "verbose", 10),
	}
}

func (o moWriteOpts) options() []compile.MoOption {
	return []compile.MoOption{
		compile.MoWithEndianness(o.Endian), compile.MoWithHashTable(!o.NoHash), compile.MoWithDepureEntries(!o.NoPurge), compile.MoWithSortEntries(!o.NoSort),
		compile.MoWithIgnoreErrors(o.IgnoreErrors), compile.MoWithVerbose(o.Verbose), compile.MoWithForce(o.Force),
	}
}

// anyEntries draws messages of every kind, repeated ids and an arbitrarily placed header included.
func anyEntries(t *rapid.T, max int) po.Entries {
	es := entries(t, allOpts, 0, max)
	if chance(t, "header", 60) {
		h := header()
		if chance(t, "tmpl", 20) {
			h.Flags = []string{"fuzzy"}
		}
		if chance(t, "hc", 30) {
			h.Comments = []string{"Translations", ""}
		}
		if chance(t, "hextra", 30) {
			h.Str += oneOf(t, "hextrav", "X-Own:  two  spaces: and more \n", "X-Ünï: \ttab\ttab\nX-Empty:\n", "X-Generator: Poedit 3.0\nX-Poedit-KeywordsList: _;gettext;  dgettext:2\n")
		}
		p := 0
		if chance(t, "hpos", 30) {
			p = intn(t, "hp", 0, len(es))
		}
		es = append(es[:p:p], append(po.Entries{h}, es[p:]...)...)
	}
	if len(es) > 0 && chance(t, "dup", 25) {
		e := canon(oneOf(t, "dupof", es...))
		if e.Plural == "" {
			e.Str = text(t, "dupstr")
		}
		e.Locations = append(e.Locations, location(t, "duploc", true))
		es = append(es, e)
	}
	for i := range es { // unsorted plural forms
		if len(es[i].Plurals) > 1 && chance(t, "unsorted", 15) {
			permuteForms(es[i].Plurals, intn(t, "order", 0, 719))
		}
	}
	return es
}

// failingWriter accepts n bytes, then fails in the given manner.
type failingWriter struct {
	left  int
	mode  string
	err   error
	got   bytes.Buffer
	tries int
}

var errInjected = errors.New("injected write failure")

// writeErrors are the causes of failed writes.
var writeErrors = []error{
	errInjected, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, os.ErrClosed, os.ErrDeadlineExceeded, os.ErrExist,
	syscall.EPIPE, syscall.ENOSPC, syscall.EINTR, syscall.EAGAIN, context.Canceled, &os.PathError{Op: "write", Path: "x", Err: syscall.EIO},
}

func (w *failingWriter) Write(p []byte) (int, error) {
	w.tries++
	if len(p) <= w.left {
		w.left -= len(p)
		w.got.Write(p)
		return len(p), nil
	}
	n := w.left
	w.left = 0
	if w.mode == "all" { // everything arrived, and still it is a failure, as of a cache that cannot be synced
		w.got.Write(p)
		return len(p), w.err
	}
	w.got.Write(p[:n])
	switch w.mode {
	case "short": // io.Writer forbids a short write without an error
		return n, io.ErrShortWrite
	case "none": // accepts nothing of the last piece
		return 0, w.err
	}
	return n, w.err
}

type p12Case struct {
	MO      bool
	PO      poWriteOpts
	M       moWriteOpts
	Entries po.Entries
}

type p13Case struct {
	p12Case
	Accept int // bytes accepted
	Mode   string
	Ignore bool
	Err    int
}

type p14Case struct {
	p12Case
	Exists, Force, Missing, IsDir, Ignore bool
	Old                                   string
}

func drawP12(t *rapid.T) p12Case {
	c := p12Case{MO: chance(t, "mo", 35), Entries: anyEntries(t, 4)}
	if c.MO {
		c.M = drawMoWriteOpts(t)
	} else {
		c.PO = drawWriteOpts(t)
	}
	if k := intn(t, "long list", 0, 999); k%53 == 27 { // where other algorithms may come in
		for i := intn(t, "more", 8, 60); i > 0; i-- {
			c.Entries = append(c.Entries, po.Entry{ID: fmt.Sprintf("entry %d", i*37%61), Str: fmt.Sprint(i), Obsolete: i%17 == 3})
		}
	}
	return c
}

func (c p12Case) label(x *Ctx) {
	x.Label("MO", c.MO)
	x.Label("PO", !c.MO)
	x.Label("highlight", c.PO.Highlight > 0)
	x.Label("managed header", c.PO.Manage)
	x.Label("omitted header", c.PO.Omit)
}

func (c p12Case) bytes() []byte {
	if c.MO {
		return compile.MoToBytes(clone(c.Entries), c.M.options()...)
	}
	return compile.PoToBytes(clone(c.Entries), c.PO.options()...)
}

func init() {
	register("P12", 40000, 800000,
		"0-6 messages of every kind with spare slice capacity, random PO or MO options, all entry points in turn; non-trivial: at least 2 messages or a header",
		drawP12,
		func(c p12Case, x *Ctx) error {
			x.NonTrivial(len(c.Entries) >= 2)
			c.label(x)
			es, unchanged := guarded(c.Entries)
			f := &po.File{Name: "cat.po", Entries: es}
			type ep struct {
				name string
				run  func() ([]byte, error)
			}
			buf := func(w func(io.Writer) error) func() ([]byte, error) {
				return func() ([]byte, error) {
					var b bytes.Buffer
					err := w(&b)
					return b.Bytes(), err
				}
			}
			dir := ""
			n := 0
			file := func(w func(string) error) func() ([]byte, error) {
				return func() ([]byte, error) {
					if dir == "" {
						dir = x.Dir()
					}
					n++
					p := filepath.Join(dir, fmt.Sprint(n))
					if err := w(p); err != nil {
						return nil, err
					}
					return []byte(readFile(p)), nil
				}
			}
			just := func(g func() []byte) func() ([]byte, error) {
				return func() ([]byte, error) { return g(), nil }
			}
			var eps []ep
			if c.MO {
				o := c.M.options()
				mc := compile.NewMo(f, o...)
				eps = []ep{
					{"MoToBytes(entries)", just(func() []byte { return compile.MoToBytes(es, o...) })},
					{"MoToBytes(pointer)", just(func() []byte { return compile.MoToBytes(f, o...) })},
					{"MoToBytes(file)", just(func() []byte { return compile.MoToBytes(*f, o...) })},
					{"MoToWriter(entries)", buf(func(w io.Writer) error { return compile.MoToWriter(es, w, o...) })},
					{"MoToWriter(pointer)", buf(func(w io.Writer) error { return compile.MoToWriter(f, w, o...) })},
					{"compiler ToBytes", just(mc.ToBytes)}, {"compiler ToWriter", buf(mc.ToWriter)},
					{"compiler ToBytesWithOptions", just(func() []byte { return mc.ToBytesWithOptions(o...) })},
					{"compiler ToWriterWithOptions", buf(func(w io.Writer) error { return mc.ToWriterWithOptions(w) })},
				}
				if len(c.Entries)%3 == 0 {
					eps = append(eps, ep{"MoToFile", file(func(p string) error { return compile.MoToFile(f, p, o...) })}, ep{"compiler ToFile", file(mc.ToFile)}, ep{"compiler ToFileWithOptions", file(func(p string) error { return mc.ToFileWithOptions(p, o...) })})
				}
				used := compile.NewMo(&po.File{Name: "other.po", Entries: po.Entries{{ID: "other", Str: "b"}}}, o...)
				used.ToBytes()
				used.SetFile(f)
				eps = append(eps, ep{"compiler of another catalog", just(used.ToBytes)})
			} else {
				o := c.PO.options()
				pc := compile.NewPo(f, o...)
				eps = []ep{
					{"PoToBytes(entries)", just(func() []byte { return compile.PoToBytes(es, o...) })},
					{"PoToBytes(pointer)", just(func() []byte { return compile.PoToBytes(f, o...) })},
					{"PoToBytes(file)", just(func() []byte { return compile.PoToBytes(*f, o...) })},
					{"PoToString(entries)", just(func() []byte { return []byte(compile.PoToString(es, o...)) })},
					{"PoToWriter(entries)", buf(func(w io.Writer) error { return compile.PoToWriter(es, w, o...) })},
					{"PoToWriter(file)", buf(func(w io.Writer) error { return compile.PoToWriter(*f, w, o...) })},
					{"compiler ToBytes", just(pc.ToBytes)}, {"compiler ToString", just(func() []byte { return []byte(pc.ToString()) })},
					{"compiler ToWriter", buf(pc.ToWriter)},
					{"compiler ToStringWithOptions", just(func() []byte { return []byte(pc.ToStringWithOptions(o...)) })},
					{"compiler ToBytesWithOptions", just(func() []byte { return pc.ToBytesWithOptions() })},
				}
				if len(c.Entries)%3 == 0 {
					eps = append(eps, ep{"PoToFile", file(func(p string) error { return compile.PoToFile(f, p, o...) })}, ep{"compiler ToFile", file(pc.ToFile)}, ep{"compiler ToFileWithOptions", file(func(p string) error { return pc.ToFileWithOptions(p, o...) })})
				}
				used := compile.NewPo(&po.File{Name: "other.po", Entries: po.Entries{{ID: "other", Str: "b"}, {Str: "Language: other\n"}}}, o...)
				used.ToBytes()
				used.SetFile(f)
				eps = append(eps, ep{"compiler of another catalog", just(used.ToBytes)})
			}
			var first []byte
			for i, e := range eps {
				b, err := e.run()
				if err != nil {
					return fmt.Errorf("%s: %v", e.name, err)
				}
				if err := unchanged(); err != nil {
					return fmt.Errorf("%s: %v", e.name, err)
				}
				if f.Name != "cat.po" || len(f.Entries) != len(c.Entries) {
					return fmt.Errorf("%s: the catalog was altered", e.name)
				}
				if i == 0 {
					first = b
				} else if !bytes.Equal(b, first) {
					return fmt.Errorf("%s gives other bytes than %s:\n%q\n%q", e.name, eps[0].name, b, first)
				}
			}
			return nil
		})

	register("P13", 60000, 1200000,
		"messages and options as for P12; the writer fails (with the part accepted, none of it, or as a short write) at a random byte offset, up to beyond the end; non-trivial: the output does not fit",
		func(t *rapid.T) p13Case {
			c := p13Case{p12Case: drawP12(t)}
			if chance(t, "big", 15) { // more than one buffer of the writer
				for i := 0; i < 60; i++ {
					c.Entries = append(c.Entries, po.Entry{ID: fmt.Sprintf("big %d %s", i, strings.Repeat("x", 100)), Str: strings.Repeat("y", 100)})
				}
			}
			total := len(c.bytes())
			c.Accept = total - 1 - intn(t, "missing", -3, total)
			if c.Accept < 0 {
				c.Accept = 0
			}
			c.Mode = oneOf(t, "mode", "part", "none", "short", "all", "device")
			c.Err = intn(t, "err", 0, 999)
			c.Ignore = chance(t, "ignore", 10)
			return c
		},
		func(c p13Case, x *Ctx) error {
			want := c.bytes()
			fits := c.Accept >= len(want)
			x.NonTrivial(!fits)
			x.Label(c.Mode, !fits)
			x.Label("fits", fits)
			x.Label("more than one buffer", len(want) > 4096)
			c.p12Case.label(x)
			c.M.IgnoreErrors = c.Ignore
			opts := append(c.PO.options(), compile.PoWithIgnoreErrors(c.Ignore))
			if c.Mode == "device" { // a device that is always full
				var err error
				if c.MO {
					c.M.Force = true
					err = compile.MoToFile(clone(c.Entries), "/dev/full", c.M.options()...)
				} else {
					err = compile.PoToFile(clone(c.Entries), "/dev/full", append(opts, compile.PoWithForcePo(true))...)
				}
				if len(want) > 0 && !c.Ignore && err == nil {
					return fmt.Errorf("writing to a full device reports no error")
				}
				return nil
			}
			w := &failingWriter{left: c.Accept, mode: c.Mode, err: writeErrors[c.Err%len(writeErrors)]}
			var err error
			if c.MO {
				err = compile.MoToWriter(clone(c.Entries), w, c.M.options()...)
			} else {
				err = compile.PoToWriter(clone(c.Entries), w, opts...)
			}
			if fits && err != nil {
				return fmt.Errorf("the writer accepted everything, yet: %v", err)
			}
			if !fits && !c.Ignore && err == nil {
				return fmt.Errorf("the writer accepted %d of %d bytes (%s), yet no error", c.Accept, len(want), c.Mode)
			}
			if cause := w.err; err != nil && !fits {
				if c.Mode == "short" {
					cause = io.ErrShortWrite
				}
				if !errors.Is(err, cause) {
					return fmt.Errorf("error %q does not tell the cause %q", err, cause)
				}
			}
			if err == nil && !c.Ignore && !bytes.Equal(w.got.Bytes(), want) {
				return fmt.Errorf("no error, but the writer got %d bytes that are not the output of %d bytes", w.got.Len(), len(want))
			}
			if !bytes.HasPrefix(want, w.got.Bytes()) && !fits {
				return fmt.Errorf("the bytes written are not the beginning of the output")
			}
			return nil
		})

	register("P14", 30000, 600000,
		"messages and options as for P12 compiled to a path that exists with longer or shorter content, is absent, is a directory or lies in a missing directory, with and without overwriting; non-trivial: the path exists",
		func(t *rapid.T) p14Case {
			c := p14Case{p12Case: drawP12(t)}
			c.PO.Highlight = 0
			switch intn(t, "target", 0, 9) {
			case 0:
				c.Missing = true
			case 1:
				c.IsDir = true
			case 2, 3:
			default:
				c.Exists = true
				c.Old = oneOf(t, "old", "", "old content\n", strings.Repeat("former content\n", 500))
			}
			c.Force = rapid.Bool().Draw(t, "force")
			c.Ignore = chance(t, "ignore", 10)
			return c
		},
		func(c p14Case, x *Ctx) error {
			x.NonTrivial(c.Exists)
			x.Label("exists", c.Exists)
			x.Label("exists+force", c.Exists && c.Force)
			x.Label("absent", !c.Exists && !c.Missing && !c.IsDir)
			x.Label("cannot be opened", c.Missing || c.IsDir)
			c.p12Case.label(x)
			want := c.bytes()
			dir := x.Dir()
			p := filepath.Join(dir, "out")
			switch {
			case c.Missing:
				p = filepath.Join(dir, "no", "out")
			case c.IsDir:
				must(os.Mkdir(p, 0o755))
			case c.Exists:
				writeFile(dir, "out", c.Old)
			}
			writeFile(dir, "bystander", "b")
			c.M.Force, c.M.IgnoreErrors = c.Force, c.Ignore
			var err error
			if c.MO {
				err = compile.MoToFile(clone(c.Entries), p, c.M.options()...)
			} else {
				err = compile.PoToFile(clone(c.Entries), p, append(c.PO.options(), compile.PoWithForcePo(c.Force), compile.PoWithIgnoreErrors(c.Ignore))...)
			}
			failed := err != nil || c.Ignore
			if readFile(filepath.Join(dir, "bystander")) != "b" {
				return fmt.Errorf("another file was changed")
			}
			switch {
			case c.Missing || c.IsDir:
				if !failed {
					return fmt.Errorf("no error although the path cannot be opened")
				}
			case c.Exists && !c.Force:
				if !failed {
					return fmt.Errorf("no error although the path exists")
				}
				if got := readFile(p); got != c.Old {
					return fmt.Errorf("the existing file was changed to %q", got)
				}
			default:
				if err != nil {
					return fmt.Errorf("not written: %v", err)
				}
				if got := readFile(p); got != string(want) {
					return fmt.Errorf("the file holds %d bytes %q, the output is %d bytes", len(got), got, len(want))
				}
			}
			return nil
		})
}
