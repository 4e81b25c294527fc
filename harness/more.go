package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
	"pgregory.net/rapid"
)

// --- header configurations (part of P27) ---------------------------------------------

// headerOpts are the options for header configurations, with what each of them is to set.
var headerOpts = []struct {
	name string
	opt  func(string, uint) po.HeaderOption
	set  func(*po.HeaderConfig, string, uint)
}{
	{"HeaderWithTemplate", func(s string, n uint) po.HeaderOption { return po.HeaderWithTemplate(n%2 == 0) }, func(c *po.HeaderConfig, s string, n uint) { c.Template = n%2 == 0 }},
	{"HeaderWithPlural", func(s string, n uint) po.HeaderOption { return po.HeaderWithPlural(s) }, func(c *po.HeaderConfig, s string, n uint) { c.Plural = s }},
	{"HeaderWithPOTCreationDate", func(s string, n uint) po.HeaderOption { return po.HeaderWithPOTCreationDate(s) }, func(c *po.HeaderConfig, s string, n uint) { c.POTCreationDate = s }},
	{"HeaderWithPORevisionDate", func(s string, n uint) po.HeaderOption { return po.HeaderWithPORevisionDate(s) }, func(c *po.HeaderConfig, s string, n uint) { c.PORevisionDate = s }},
	{"HeaderWithXGenerator", func(s string, n uint) po.HeaderOption { return po.HeaderWithXGenerator(s) }, func(c *po.HeaderConfig, s string, n uint) { c.XGenerator = s }},
	{"HeaderWtihContentTransferEncoding", func(s string, n uint) po.HeaderOption { return po.HeaderWtihContentTransferEncoding(s) }, func(c *po.HeaderConfig, s string, n uint) { c.ContentTransferEncoding = s }},
	{"HeaderWithMediaType", func(s string, n uint) po.HeaderOption { return po.HeaderWithMediaType(s) }, func(c *po.HeaderConfig, s string, n uint) { c.MediaType = s }},
	{"HeaderWithCharset", func(s string, n uint) po.HeaderOption { return po.HeaderWithCharset(s) }, func(c *po.HeaderConfig, s string, n uint) { c.Charset = s }},
	{"HeaderWithMimeVersion", func(s string, n uint) po.HeaderOption { return po.HeaderWithMimeVersion(s) }, func(c *po.HeaderConfig, s string, n uint) { c.MimeVersion = s }},
	{"HeaderWithNplurals", func(s string, n uint) po.HeaderOption { return po.HeaderWithNplurals(n) }, func(c *po.HeaderConfig, s string, n uint) { c.Nplurals = n }},
	{"HeaderWithProjectIDVersion", func(s string, n uint) po.HeaderOption { return po.HeaderWithProjectIDVersion(s) }, func(c *po.HeaderConfig, s string, n uint) { c.ProjectIDVersion = s }},
	{"HeaderWithReportMsgidBugsTo", func(s string, n uint) po.HeaderOption { return po.HeaderWithReportMsgidBugsTo(s) }, func(c *po.HeaderConfig, s string, n uint) { c.ReportMsgidBugsTo = s }},
	{"HeaderWithLanguage", func(s string, n uint) po.HeaderOption { return po.HeaderWithLanguage(s) }, func(c *po.HeaderConfig, s string, n uint) { c.Language = s }},
	{"HeaderWithLanguageTeam", func(s string, n uint) po.HeaderOption { return po.HeaderWithLanguageTeam(s) }, func(c *po.HeaderConfig, s string, n uint) { c.LanguageTeam = s }},
	{"HeaderWithLastTranslator", func(s string, n uint) po.HeaderOption { return po.HeaderWithLastTranslator(s) }, func(c *po.HeaderConfig, s string, n uint) { c.LastTranslator = s }},
	{"HeaderWithConfig", func(s string, n uint) po.HeaderOption {
		return po.HeaderWithConfig(po.HeaderConfig{Language: s, Nplurals: n, Plural: "0"})
	}, func(c *po.HeaderConfig, s string, n uint) {
		*c = po.HeaderConfig{Language: s, Nplurals: n, Plural: "0"}
	}},
}

// portableCharsets are the character sets the GNU gettext manual lists for PO files.
var portableCharsets = strings.Fields(`ASCII ISO-8859-1 ISO-8859-2 ISO-8859-3 ISO-8859-4 ISO-8859-5 ISO-8859-6 ISO-8859-7 ISO-8859-8 ISO-8859-9 ISO-8859-13
	ISO-8859-14 ISO-8859-15 KOI8-R KOI8-U KOI8-T CP850 CP866 CP874 CP932 CP949 CP950 CP1250 CP1251 CP1252 CP1253 CP1254 CP1255 CP1256 CP1257 GB2312 EUC-JP EUC-KR
	EUC-TW BIG5 BIG5-HKSCS GBK GB18030 SHIFT_JIS JOHAB TIS-620 VISCII GEORGIAN-PS UTF-8`)

// portableCharset draws the name of a character set; their case does not matter.
func portableCharset(t *rapid.T) string {
	s := oneOf(t, "pcharset", portableCharsets...)
	if chance(t, "charsetcase", 25) {
		s = s[:1] + strings.ToLower(s[1:])
		if chance(t, "charsetlower", 50) {
			s = strings.ToLower(s)
		}
	}
	return s
}

type headerOpt struct {
	Which int
	S     string
	N     uint
}

func drawHeaderOpts(t *rapid.T) (r []headerOpt) {
	for i := intn(t, "nopts", 0, 8); i > 0; i-- {
		o := headerOpt{Which: intn(t, "which", 0, len(headerOpts)-1), N: uint(intn(t, "optn", 0, 5))}
		switch headerOpts[o.Which].name {
		case "HeaderWithCharset":
			o.S = oneOf(t, "charset", "", "UTF-8", "x-unknown", "KOI8-R")
			if chance(t, "portable", 60) {
				o.S = portableCharset(t)
			}
		case "HeaderWithMediaType":
			o.S = oneOf(t, "mediatype", "", "text/plain", "text/html")
		case "HeaderWtihContentTransferEncoding":
			o.S = oneOf(t, "encoding", "", "8bit", "7bit")
		case "HeaderWithPlural":
			o.S = oneOf(t, "rule", append([]string{""}, rules...)...)
		default:
			o.S = headerValue(t, "optval")
		}
		r = append(r, o)
	}
	return r
}

func checkHeaderOpts(os []headerOpt, x *Ctx) error {
	base, tbase := po.DefaultHeaderConfig(), po.DefaultTemplateHeaderConfig()
	if d := (po.HeaderConfig{Language: " ", MimeVersion: "1.0", MediaType: "text/plain", Charset: "UTF-8", ContentTransferEncoding: "8bit", Nplurals: 2, Plural: "(n != 1)"}); !reflect.DeepEqual(base, d) {
		return fmt.Errorf("the default configuration is %+v", base)
	}
	if !tbase.Template || tbase.MimeVersion != "1.0" || tbase.MediaType != "text/plain" || tbase.Charset != "CHARSET" || tbase.ContentTransferEncoding != "8bit" ||
		tbase.ProjectIDVersion != "PACKAGE VERSION" || tbase.PORevisionDate != "YEAR-MO-DA HO:MI+ZONE" || tbase.LastTranslator != "FULL NAME <EMAIL@ADDRESS>" || tbase.LanguageTeam != "LANGUAGE <LL@li.org>" {
		return fmt.Errorf("the default configuration of templates is %+v", tbase)
	}
	var opts []po.HeaderOption
	var names []string
	for _, o := range os {
		opts = append(opts, headerOpts[o.Which].opt(o.S, o.N))
		names = append(names, fmt.Sprintf("%s(%q, %d)", headerOpts[o.Which].name, o.S, o.N))
	}
	for _, b := range []struct {
		name  string
		start po.HeaderConfig
		got   po.HeaderConfig
	}{
		{"HeaderConfigFromOptions", po.HeaderConfig{}, po.HeaderConfigFromOptions(opts...)},
		{"DefaultHeaderConfig", base, po.DefaultHeaderConfig(opts...)},
		{"DefaultTemplateHeaderConfig", tbase, po.DefaultTemplateHeaderConfig(opts...)},
	} {
		want := b.start
		for _, o := range os {
			headerOpts[o.Which].set(&want, o.S, o.N)
		}
		if !reflect.DeepEqual(b.got, want) {
			return fmt.Errorf("%s with %v is\n%+v\nwant\n%+v", b.name, names, b.got, want)
		}
		// Validity.
		var problems []string
		if (want.Plural == "") != (want.Nplurals == 0) {
			problems = append(problems, "plural forms")
		}
		if want.MediaType != "" && want.MediaType != "text/plain" {
			problems = append(problems, "media type")
		}
		if want.ContentTransferEncoding != "" && want.ContentTransferEncoding != "8bit" {
			problems = append(problems, "encoding")
		}
		if want.Charset != "" && !contains(portableCharsets, strings.ToUpper(want.Charset)) {
			problems = append(problems, "charset")
		}
		x.Label("invalid configuration", len(problems) > 0)
		x.Label("valid configuration", len(problems) == 0)
		if errs := want.Validate(); len(errs) != len(problems) {
			return fmt.Errorf("%+v has the problems %v, reported are %v", want, problems, errs)
		}
		// The header has a field for everything that is set.
		h := want.ToHeader()
		model := map[string]string{
			"Project-Id-Version": want.ProjectIDVersion, "Report-Msgid-Bugs-To": want.ReportMsgidBugsTo, "PO-Revision-Date": want.PORevisionDate, "Last-Translator": want.LastTranslator,
			"Language-Team": want.LanguageTeam, "Language": want.Language, "MIME-Version": want.MimeVersion, "Content-Transfer-Encoding": want.ContentTransferEncoding, "X-Generator": want.XGenerator,
		}
		if want.Template {
			model["POT-Creation-Date"] = want.POTCreationDate
		} else if want.Plural != "" && want.Nplurals != 0 {
			model["Plural-Forms"] = fmt.Sprintf("nplurals=%d; plural=%s;", want.Nplurals, want.Plural)
		}
		if want.MediaType != "" && want.Charset != "" {
			model["Content-Type"] = want.MediaType + "; charset=" + want.Charset
		}
		seen := map[string]bool{}
		for _, f := range h.Fields {
			if v, ok := model[f.Key]; !ok || v != f.Value || v == "" || seen[f.Key] {
				return fmt.Errorf("the header of %+v has the field %q: %q", want, f.Key, f.Value)
			}
			seen[f.Key] = true
		}
		for k, v := range model {
			if v != "" && !seen[k] {
				return fmt.Errorf("the header of %+v lacks the field %q: %q", want, k, v)
			}
		}
		if h.Template != want.Template {
			return fmt.Errorf("the header of %+v has template state %v", want, h.Template)
		}
	}
	var zero po.HeaderConfig
	for _, o := range os {
		headerOpts[o.Which].set(&zero, o.S, o.N)
	}
	if got, want := po.NewHeader(opts...), zero.ToHeader(); !reflect.DeepEqual(got, want) {
		return fmt.Errorf("NewHeader with %v is %+v, want %+v", names, got, want)
	}
	if !reflect.DeepEqual(po.DefaultHeaderConfig(), base) || !reflect.DeepEqual(po.DefaultTemplateHeaderConfig(), tbase) {
		return fmt.Errorf("the options %v altered the defaults", names)
	}
	return nil
}

// --- P50: strategies for duplicates ----------------------------------------------------

type p50Case struct {
	Entries po.Entries
	Prior   po.Entries
	Answers []string // what the recording merger answers: "a", "b", "nil", "new"
}

func drawP50(t *rapid.T) p50Case {
	c := p50Case{Entries: pool(t, 1, 9)}
	for _, e := range c.Entries {
		if chance(t, "isprior", 40) {
			p := e
			if chance(t, "other", 50) {
				p = pool(t, 1, 1)[0]
				p.ID, p.Context = e.ID, e.Context
			}
			c.Prior = append(c.Prior, p)
		}
	}
	if chance(t, "foreign", 30) {
		c.Prior = append(c.Prior, pool(t, 1, 2)...)
	}
	for i := intn(t, "nanswers", 1, 6); i > 0; i-- {
		c.Answers = append(c.Answers, oneOf(t, "answer", "a", "b", "nil", "new"))
	}
	return c
}

// fold is the documented way to resolve duplicates: each group of one id is
// folded in order, in the place of its first message.
func fold(es po.Entries, m func(a, b po.Entry) *po.Entry) po.Entries {
	var r po.Entries
	at := map[string]int{}
	for _, e := range es {
		k := uid(e)
		if i, ok := at[k]; !ok {
			at[k] = len(r)
			r = append(r, e)
		} else if n := m(r[i], e); n != nil {
			r[i] = *n
		}
	}
	return r
}

func checkP50(c p50Case, x *Ctx) error {
	in, unchanged := guarded(c.Entries)
	prior, priorUnchanged := guarded(c.Prior)
	x.NonTrivial(hasDups(c.Entries))
	x.Label("duplicates", hasDups(c.Entries))
	x.Label("priorities", len(c.Prior) > 0)
	inPrior := func(e po.Entry) *po.Entry {
		for _, p := range c.Prior {
			if p.ID == e.ID && p.Context == e.Context {
				return &p
			}
		}
		return nil
	}
	for _, e := range c.Entries {
		x.Label("prioritized", inPrior(e) != nil)
		x.Label("not prioritized", inPrior(e) == nil)
	}
	var ids []string
	for _, p := range c.Prior {
		ids = append(ids, p.UnifiedID())
	}
	ids0 := append([]string(nil), ids...)
	for _, s := range []struct {
		name string
		m    po.MergeFunc
		want func(a, b po.Entry) *po.Entry
	}{
		{"MergeUsingPriorAsBase", po.MergeUsingPriorAsBase(prior), func(a, b po.Entry) *po.Entry {
			if p := inPrior(a); p != nil {
				return po.SolveMerge(*p, b)
			}
			return po.SolveMerge(a, b)
		}},
		{"MergeAndMarkObsoleteIfNotPrioritized", po.MergeAndMarkObsoleteIfNotPrioritized(ids), func(a, b po.Entry) *po.Entry {
			n := po.SolveMerge(a, b)
			n.Obsolete = n.Obsolete || inPrior(a) == nil
			return n
		}},
		{"MergeIfInPriorityList", po.MergeIfInPriorityList(ids), func(a, b po.Entry) *po.Entry {
			if inPrior(a) != nil {
				return po.SolveMerge(a, b)
			}
			return nil
		}},
		{"MergeUsingPriorityOrFallback", po.MergeUsingPriorityOrFallback(prior), func(a, b po.Entry) *po.Entry {
			if p := inPrior(a); p != nil {
				return p
			}
			return po.SolveMerge(a, b)
		}},
		{"SolveMerge", po.SolveMerge, po.SolveMerge},
	} {
		got, want := in.SolveFunc(s.m), fold(clone(c.Entries), s.want)
		if err := diffEntries(got, want); err != nil {
			return fmt.Errorf("SolveFunc(%s): %v", s.name, err)
		}
		if err := unchanged(); err != nil {
			return fmt.Errorf("SolveFunc(%s): %v", s.name, err)
		}
		if err := priorUnchanged(); err != nil {
			return fmt.Errorf("SolveFunc(%s), list of priorities: %v", s.name, err)
		}
		if !reflect.DeepEqual(ids, ids0) {
			return fmt.Errorf("SolveFunc(%s) altered the list of priorities: %q", s.name, ids)
		}
		// Again, into the same storage.
		if err := diffEntries(in.SolveFunc(s.m), want); err != nil {
			return fmt.Errorf("SolveFunc(%s) for the second time: %v", s.name, err)
		}
	}
	for i, e := range c.Entries {
		a := c.Entries[(i+1)%len(c.Entries)]
		if got := po.MergeIfInPriorityList(ids)(clone(po.Entries{e})[0], a); (got == nil) != (inPrior(e) == nil) {
			return fmt.Errorf("MergeIfInPriorityList of %s answers %v", showEntry(e), got)
		}
	}
	// Any strategy at all: the order of calls and what becomes of the answers.
	recorder := func(calls *[]string) po.MergeFunc {
		return func(a, b po.Entry) *po.Entry {
			n := len(*calls)
			*calls = append(*calls, js(canon(a))+js(canon(b)))
			switch c.Answers[n%len(c.Answers)] {
			case "a":
				return &a
			case "b":
				return &b
			case "new":
				a.Comments = append(append([]string(nil), a.Comments...), fmt.Sprint("call ", n))
				return &a
			}
			return nil
		}
	}
	var got, want []string
	res := in.SolveFunc(recorder(&got))
	model := fold(clone(c.Entries), recorder(&want))
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("SolveFunc asks its strategy about\n%s\nwant\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
	if err := diffEntries(res, model); err != nil {
		return fmt.Errorf("SolveFunc with the answers %v: %v", c.Answers, err)
	}
	// Plural forms.
	for _, e := range c.Entries {
		forms := append(append(po.PluralEntries(nil), e.Plurals...), c.Entries[0].Plurals...)
		if len(forms) > 1 {
			forms = append(forms, forms[0], po.PluralEntry{ID: forms[0].ID + 1, Str: forms[0].Str})
			// Not told apart by their texts and numbers written one after the other.
			forms = append(forms, po.PluralEntry{ID: forms[0].ID + 10, Str: forms[0].Str}, po.PluralEntry{ID: forms[0].ID, Str: forms[0].Str + "1"})
		}
		before := append(po.PluralEntries(nil), forms...)
		var want po.PluralEntries
		for _, f := range forms {
			known := false
			for _, w := range want {
				known = known || w == f
			}
			if !known {
				want = append(want, f)
			}
		}
		got := forms.Solve()
		if len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
			return fmt.Errorf("PluralEntries.Solve of %v is %v, want %v", before, got, want)
		}
		if !reflect.DeepEqual(forms, before) {
			return fmt.Errorf("PluralEntries.Solve alters its list")
		}
	}
	return unchanged()
}

// --- P51: failed reads ----------------------------------------------------------------

type p51Case struct {
	Kind  string
	Fail  int    // the read fails after this many bytes
	Fault string // "reader", "reader with data", "missing", "directory", "closed", "write only"
	Size  int
	Chunk int
	Err   int
}

var errRead = errors.New("injected read error")

// readErrors are the causes of failed reads; none but io.EOF itself is an end of the input.
var readErrors = []error{
	errRead, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, os.ErrClosed, os.ErrDeadlineExceeded, os.ErrPermission,
	os.ErrNotExist, syscall.EINTR, syscall.EIO, syscall.EAGAIN, context.Canceled, bufio.ErrTooLong,
	fmt.Errorf("wrapped: %w", io.EOF), &os.PathError{Op: "read", Path: "x", Err: syscall.EISDIR},
}

// failingReader delivers some bytes and then fails.
type failingReader struct {
	data     []byte
	chunk    int
	withData bool // the error comes along with the last data
	err      error
}

func (f *failingReader) Read(p []byte) (int, error) {
	if len(p) > f.chunk {
		p = p[:f.chunk]
	}
	n := copy(p, f.data)
	f.data = f.data[n:]
	if n == 0 || (f.withData && len(f.data) == 0) {
		return n, f.err
	}
	return n, nil
}

// content returns complete content of a kind, of at least the given size.
func content(kind string, size int) []byte {
	var b bytes.Buffer
	switch kind {
	case "po":
		for i := 0; i == 0 || b.Len() < size; i++ {
			fmt.Fprintf(&b, "#: f.go:%d\nmsgid \"id %d\"\nmsgstr \"translation %d\"\n\n", i, i, i)
		}
	case "mo":
		var ids, strs []string
		for i := 0; i == 0 || i*28 < size; i++ {
			ids, strs = append(ids, fmt.Sprintf("id %06d", i)), append(strs, fmt.Sprintf("str %d", i))
		}
		return encodeMO(binary.LittleEndian, ids, strs)
	default:
		b.WriteString("package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\n")
		for i := 0; i == 0 || b.Len() < size; i++ {
			fmt.Fprintf(&b, "var _ = gotext.Get(\"id %d\")\n\n", i)
		}
	}
	return b.Bytes()
}

func checkP51(c p51Case, x *Ctx) error {
	data := content(c.Kind, c.Size)
	part := data[:c.Fail%(len(data)+1)]
	x.Label(c.Kind, true)
	x.Label(c.Fault, true)
	x.Label("all data arrives before the error", len(part) == len(data))
	x.NonTrivial(len(part) > 0 || !strings.HasPrefix(c.Fault, "reader"))
	report := func(how string, f *po.File, err error, wantErr error) error {
		if err == nil {
			return fmt.Errorf("%s of %s: no error, although the input cannot be read (%d of %d bytes)", how, c.Kind, len(part), len(data))
		}
		if f != nil {
			return fmt.Errorf("%s of %s: a catalog in spite of %v", how, c.Kind, err)
		}
		if wantErr != nil && !errors.Is(err, wantErr) {
			return fmt.Errorf("%s of %s: error %q does not tell the cause %q", how, c.Kind, err, wantErr)
		}
		return nil
	}
	type step struct {
		how string
		run func() (*po.File, error)
	}
	var steps []step
	var cause error
	done := func(p po.Parser, err error) (*po.File, error) {
		if err != nil {
			return nil, err
		}
		f := p.Parse()
		return f, p.Error()
	}
	nf := func(p interface{ Entries() po.Entries }, err error) (*po.File, error) {
		if err != nil {
			return nil, err
		}
		return &po.File{Entries: p.Entries()}, nil
	}
	if strings.HasPrefix(c.Fault, "reader") {
		cause = readErrors[c.Err%len(readErrors)]
		rd := func() io.Reader {
			return &failingReader{data: part, chunk: 1 + c.Chunk, withData: c.Fault == "reader with data", err: cause}
		}
		switch c.Kind {
		case "po":
			steps = []step{
				{"PoFromReader", func() (*po.File, error) { return parse.PoFromReader(rd(), "x") }},
				{"NewPoFromReader", func() (*po.File, error) {
					p, err := parse.NewPoFromReader(rd(), "x")
					if err != nil {
						return nil, err
					}
					return done(p, err)
				}},
			}
		case "mo":
			steps = []step{
				{"MoFromReader", func() (*po.File, error) { return parse.MoFromReader(rd(), "x") }},
				{"NewMoFromReader", func() (*po.File, error) {
					p, err := parse.NewMoFromReader(rd(), "x")
					if err != nil {
						return nil, err
					}
					return done(p, err)
				}},
			}
		default:
			steps = []step{
				{"FromReader", func() (*po.File, error) { return goparse.FromReader(rd(), "x") }},
				{"NewParserFromReader", func() (*po.File, error) {
					p, err := goparse.NewParserFromReader(rd(), "x")
					if err != nil {
						return nil, err
					}
					return done(p, err)
				}},
				{"NewFile", func() (*po.File, error) {
					f, err := goparse.NewFile(rd(), "x", nil)
					return nf(f, err)
				}},
				{"Reset", func() (*po.File, error) {
					f, err := goparse.NewFileFromBytes(data, "y", nil)
					must(err)
					if err := f.Reset(rd(), "x", nil); err != nil {
						return nil, err
					}
					return nf(f, f.Error())
				}},
			}
		}
	} else {
		dir := x.Dir()
		path := filepath.Join(dir, "in."+c.Kind)
		good := filepath.Join(dir, "good."+c.Kind)
		must(os.WriteFile(good, data, 0o644))
		open := func() *os.File { return nil }
		switch c.Fault {
		case "missing":
			cause = os.ErrNotExist
		case "directory":
			if c.Kind == "go" { // a directory is a valid path there
				path = filepath.Join(dir, "missing", "in.go")
				cause = os.ErrNotExist
			} else {
				must(os.Mkdir(path, 0o755))
			}
			open = func() *os.File {
				f, err := os.Open(dir)
				must(err)
				return f
			}
		case "closed":
			cause = os.ErrNotExist
			open = func() *os.File {
				f, err := os.Open(good)
				must(err)
				f.Close()
				return f
			}
		case "write only":
			cause = os.ErrNotExist
			open = func() *os.File {
				f, err := os.OpenFile(good, os.O_WRONLY, 0)
				must(err)
				return f
			}
		}
		file := func(r func(*os.File) (*po.File, error)) func() (*po.File, error) {
			return func() (*po.File, error) {
				f := open()
				defer f.Close()
				return r(f)
			}
		}
		cause2 := cause
		cause = nil
		byPath := func(how string, r func() (*po.File, error)) {
			steps = append(steps, step{how, func() (*po.File, error) {
				f, err := r()
				if err != nil && cause2 != nil && !errors.Is(err, cause2) {
					return f, nil // reported below as missing the cause
				}
				return f, err
			}})
		}
		switch c.Kind {
		case "po":
			byPath("Po", func() (*po.File, error) { return parse.Po(path) })
			byPath("NewPo", func() (*po.File, error) {
				p, err := parse.NewPo(path)
				if err != nil {
					return nil, err
				}
				return done(p, err)
			})
			if open() != nil {
				steps = append(steps, step{"PoFromFile", file(func(f *os.File) (*po.File, error) { return parse.PoFromFile(f) })})
			}
		case "mo":
			byPath("Mo", func() (*po.File, error) { return parse.Mo(path) })
			byPath("NewMo", func() (*po.File, error) {
				p, err := parse.NewMo(path)
				if err != nil {
					return nil, err
				}
				return done(p, err)
			})
			if open() != nil {
				steps = append(steps, step{"MoFromFile", file(func(f *os.File) (*po.File, error) { return parse.MoFromFile(f) })})
			}
		default:
			byPath("FromPath", func() (*po.File, error) { return goparse.FromPath(path) })
			byPath("FromPaths", func() (*po.File, error) { return goparse.FromPaths([]string{good, path, good}) })
			byPath("FromPaths", func() (*po.File, error) { return goparse.FromPaths([]string{path, good}) })
			byPath("NewParser", func() (*po.File, error) {
				p, err := goparse.NewParser(path)
				if err != nil {
					return nil, err
				}
				return done(p, err)
			})
			byPath("NewFileFromPath", func() (*po.File, error) {
				f, err := goparse.NewFileFromPath(path, nil)
				return nf(f, err)
			})
			if open() != nil {
				steps = append(steps, step{"FromFile", file(func(f *os.File) (*po.File, error) { return goparse.FromFile(f) })})
				steps = append(steps, step{"FromFiles", file(func(f *os.File) (*po.File, error) {
					g, err := os.Open(good)
					must(err)
					defer g.Close()
					return goparse.FromFiles([]*os.File{g, f})
				})})
			}
		}
	}
	for _, s := range steps {
		f, err := s.run()
		if err := report(s.how, f, err, cause); err != nil {
			return err
		}
	}
	// Without the fault, all of it is read.
	var f *po.File
	var err error
	all := &chunkReader{data, 1 + c.Chunk}
	switch c.Kind {
	case "po":
		f, err = parse.PoFromReader(all, "x")
	case "mo":
		f, err = parse.MoFromReader(all, "x")
	default:
		f, err = goparse.FromReader(all, "x", goparse.WithNoHeader(true))
	}
	if err != nil {
		return fmt.Errorf("%s that can be read is refused: %v", c.Kind, err)
	}
	n := 0
	for _, e := range f.Entries {
		if strings.HasPrefix(e.ID, "id ") {
			n++
		}
	}
	want := bytes.Count(data, []byte("id \""))
	switch c.Kind {
	case "po":
		want = bytes.Count(data, []byte("msgid "))
	case "mo":
		want = bytes.Count(data, []byte("id "))
	default:
		want = bytes.Count(data, []byte("gotext.Get("))
	}
	if n != want {
		return fmt.Errorf("%d of %d messages are read of %s of %d bytes", n, want, c.Kind, len(data))
	}
	return nil
}

// chunkReader delivers data in pieces.
type chunkReader struct {
	data  []byte
	chunk int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	if len(p) > r.chunk {
		p = p[:r.chunk]
	}
	n := copy(p, r.data)
	r.data = r.data[n:]
	return n, nil
}

// --- P52: the header of an extraction ---------------------------------------------------

type p52Case struct {
	NoHeader bool
	Config   []headerOpt // options of the header configuration, if UseConfig
	Base     string      // "none", "empty", "default", "template"
	Custom   []po.HeaderField
	UseCust  bool
	Template bool
	IDs      []string
	Files    int
	All      bool
	NoClean  bool
}

func drawP52(t *rapid.T) p52Case {
	c := p52Case{NoHeader: chance(t, "noheader", 15), Base: oneOf(t, "base", "none", "none", "empty", "default", "template"), UseCust: chance(t, "custom", 30), Template: chance(t, "tmpl", 30),
		Files: intn(t, "files", 1, 3), All: chance(t, "all", 30), NoClean: chance(t, "noclean", 20)}
	if c.Base != "none" {
		c.Config = drawHeaderOpts(t)
	}
	if c.UseCust {
		for i := intn(t, "nfields", 0, 4); i > 0; i-- {
			c.Custom = append(c.Custom, po.HeaderField{Key: headerKey(t, "key"), Value: headerValue(t, "value")})
		}
	}
	for i := intn(t, "nids", 0, 4); i > 0; i-- {
		c.IDs = append(c.IDs, oneOf(t, "id", "", "a", "b", "Language: x"))
	}
	return c
}

func checkP52(c p52Case, x *Ctx) error {
	var src strings.Builder
	src.WriteString("package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\n")
	for _, id := range c.IDs {
		fmt.Fprintf(&src, "var _ = gotext.Get(%q)\n", id)
	}
	opts := []goparse.Option{goparse.WithNoHeader(c.NoHeader), goparse.WithExtractAll(c.All), goparse.WithCleanDuplicates(!c.NoClean)}
	var cfg, cfg0 po.HeaderConfig
	want := po.DefaultTemplateHeaderConfig()
	if c.Base != "none" {
		var hopts []po.HeaderOption
		for _, o := range c.Config {
			hopts = append(hopts, headerOpts[o.Which].opt(o.S, o.N))
		}
		switch c.Base {
		case "empty":
			cfg = po.HeaderConfigFromOptions(hopts...)
		case "default":
			cfg = po.DefaultHeaderConfig(hopts...)
		default:
			cfg = po.DefaultTemplateHeaderConfig(hopts...)
		}
		cfg0, want = cfg, cfg
		opts = append(opts, goparse.WithHeaderConfig(&cfg))
	}
	want.XGenerator = "xgotext"
	h := want.ToHeader()
	var custom, custom0 po.Header
	if c.UseCust {
		custom = po.Header{Template: c.Template, Fields: append([]po.HeaderField(nil), c.Custom...)}
		custom0 = po.Header{Template: c.Template, Fields: append([]po.HeaderField(nil), c.Custom...)}
		h = custom0
		opts = append(opts, goparse.WithCustomHeader(&custom))
	}
	x.NonTrivial(!c.NoHeader && (c.UseCust || c.Base != "none"))
	x.Label("no header", c.NoHeader)
	x.Label("custom header", c.UseCust)
	x.Label("base "+c.Base, true)
	dir := x.Dir()
	var paths []string
	for i := 0; i < c.Files; i++ {
		p := filepath.Join(dir, fmt.Sprint(i, ".go"))
		must(os.WriteFile(p, []byte(src.String()), 0o644))
		paths = append(paths, p)
	}
	p, err := goparse.NewParserFromPaths(paths, opts...)
	if err != nil {
		return err
	}
	for run := 0; run < 2; run++ {
		f := p.Parse()
		if err := p.Error(); err != nil {
			return err
		}
		es := f.Entries
		if !c.NoHeader {
			if len(es) == 0 || !isHeader(es[0]) {
				return fmt.Errorf("the first message is not the header:%s", showAll(es))
			}
			if e := es[0]; e.Str != h.ToEntry().Str || isFuzzy(e) != h.Template || e.IsPlural() || e.Obsolete || len(e.Comments)+len(e.Locations)+len(e.ExtractedComments)+len(e.Previous) > 0 {
				return fmt.Errorf("the header is %s\nwant %s", showEntry(e), showEntry(h.ToEntry()))
			}
			es = es[1:]
		}
		if has(es, isHeader) {
			return fmt.Errorf("a message with empty id besides the header:%s", showAll(f.Entries))
		}
		for _, id := range c.IDs {
			if id != "" && es.Index(id, "") < 0 {
				return fmt.Errorf("the message %q is missing:%s", id, showAll(f.Entries))
			}
		}
	}
	if c.Base != "none" && !reflect.DeepEqual(cfg, cfg0) {
		return fmt.Errorf("extraction altered the header configuration: %+v, was %+v", cfg, cfg0)
	}
	if c.UseCust && !reflect.DeepEqual(custom, custom0) {
		return fmt.Errorf("extraction altered the custom header: %+v, was %+v", custom, custom0)
	}
	return nil
}

func init() {
	register("P50", 100000, 2000000,
		"1-9 messages with repeated ids, a list of priorities with equal, different and foreign definitions, each strategy, and a recording strategy that answers with either message, a new one or nothing; repeated plural forms; non-trivial: the list has duplicates",
		drawP50, checkP50)
	register("P51", 20000, 400000,
		"PO, MO and Go content of up to 9000 bytes from readers that fail after a random number of bytes (alone or along with the last data, in pieces of any size), missing paths, directories, closed and write-only files, through every entry point; non-trivial: some data arrives first, or the fault is one of files",
		func(t *rapid.T) p51Case {
			c := p51Case{Kind: oneOf(t, "kind", "po", "mo", "go"), Fault: oneOf(t, "fault", "reader", "reader", "reader", "reader with data", "missing", "directory", "closed", "write only"),
				Size: oneOf(t, "size", 1, 100, 600, 5000, 9000), Fail: intn(t, "fail", 0, 12000), Chunk: oneOf(t, "chunk", 0, 6, 511, 512, 4095, 100000)}
			if chance(t, "atend", 20) {
				c.Fail = len(content(c.Kind, c.Size))
			}
			if k := intn(t, "large", 0, 999); k%89 == 44 {
				c.Size = 70000
				if k%2 == 0 {
					c.Size = 1200000
				}
				c.Fail = c.Fail * c.Size / 12000
			}
			c.Err = intn(t, "err", 0, 999)
			return c
		}, checkP51)
	register("P52", 40000, 800000,
		"one to three source files with 0-4 (possibly empty) ids, a header configuration from 0-8 options on top of the empty, the default or the template one, or none, and a custom header or none, extracted twice by one parser; non-trivial: there is a header and it is configured",
		drawP52, checkP52)
}
