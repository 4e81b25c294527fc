package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
	"pgregory.net/rapid"
)

// --- P53: logging ----------------------------------------------------------------------

type logChoice struct {
	Verbose bool
	Prefix  string
	Flags   int
	None    bool // a nil logger, given explicitly
}

type p53Case struct {
	Kind    string
	Data    []byte
	Entries po.Entries
	PO      poWriteOpts
	MO      moWriteOpts
	Read    poReadOpts
	MustBe  bool
	Go      goOpts
	Accept  int
	Sink    string
	Ignore  bool
	Via     int
	Runs    int
	Log     logChoice
	Paths   []string // of a tree with x.go, y.go, sub/z.go, notes.txt and bad.go
}

var p53Paths = []string{"", ".", "x.go", "y.go", "./x.go", "sub", "sub/", "sub/z.go", "notes.txt", "bad.go", "missing", "sub/../y.go"}

func drawP53(t *rapid.T) p53Case {
	c := p53Case{
		Kind: oneOf(t, "kind", "po reader", "mo reader", "po writer", "mo writer", "go", "go tree"), Runs: intn(t, "runs", 1, 2), Via: intn(t, "via", 0, 3),
		Log: logChoice{
			Verbose: rapid.Bool().Draw(t, "verbose"), Prefix: oneOf(t, "logprefix", "", "tool: ", "%d%s\n"), None: chance(t, "nolog", 10),
			Flags: oneOf(t, "logflags", 0, log.LstdFlags, log.Lmsgprefix, log.Lshortfile|log.Lmicroseconds),
		},
	}
	switch c.Kind {
	case "po reader":
		c.Read = drawReadOpts(t)
		switch intn(t, "content", 0, 3) {
		case 0:
			s, _ := renderLayout(t, anyEntries(t, 5))
			c.Data = []byte(s)
		case 1:
			c.Data = []byte(drawDamage(t).Text)
		case 2:
			c.Data = mutate(t, []byte(plainPO(anyEntries(t, 4))), poTokens)
		case 3:
			c.Data = []byte(plainPO(anyEntries(t, 5)))
		}
	case "mo reader":
		c.MustBe = rapid.Bool().Draw(t, "mustbe")
		es := entries(t, entryOpts{plural: true, context: true}, 0, 5)
		if !chance(t, "unsorted", 30) {
			es = sortedByKey(es)
		}
		c.Data = drawMOData(t, es)
		if chance(t, "bad", 40) {
			_, c.Data, _ = drawBadMO(t, c.Data, "")
		} else if chance(t, "odd", 30) {
			c.Data = mutate(t, c.Data, []string{"\x00", "\x00\x00\x00\x01", "\xff\xff\xff\xff", "\x04", "a"})
		}
	case "go":
		c.Go = drawGoOpts(t)
		c.Data = drawP48(t).Text
	case "go tree":
		c.Go = drawGoOpts(t)
		for i := intn(t, "npaths", 1, 4); i > 0; i-- {
			c.Paths = append(c.Paths, oneOf(t, "path", p53Paths...))
		}
		if chance(t, "good", 60) {
			c.Data = []byte("package p\n")
		} else {
			c.Data = drawP48(t).Text
		}
	default:
		c.Entries, c.PO, c.MO = anyEntries(t, 5), drawWriteOpts(t), drawMoWriteOpts(t)
		if c.PO.Manage && c.PO.HConfig == nil { // a time of day
			c.PO.Manage = false
		}
		c.Sink, c.Ignore = oneOf(t, "sink", "fits", "part", "short", "exists", "new", "nowhere"), chance(t, "ignore", 15)
		c.Accept = intn(t, "accept", 0, 200)
	}
	return c
}

// caseDirs are the directories of different runs of a case.
var caseDirs = regexp.MustCompile(`/case/[0-9]+/`)

// outcome is what a run gave: a printed result and the errors reported.
type outcome struct {
	result string
	errors []error
}

// run runs the case once or several times with one reader or writer.
func (c p53Case) run(x *Ctx, l *log.Logger, verbose bool) (out []outcome) {
	add := func(f *po.File, errs []error, first error) {
		o := outcome{result: caseDirs.ReplaceAllString(showFile(f, first), "/case/N/"), errors: errs}
		if first != nil && len(errs) == 0 {
			o.errors = []error{first}
		}
		out = append(out, o)
	}
	path := func() string {
		p := filepath.Join(x.Dir(), "f")
		must(os.WriteFile(p, c.Data, 0o600))
		return p
	}
	switch c.Kind {
	case "po reader":
		o := append(c.Read.options(), parse.PoWithLogger(l), parse.PoWithVerbose(verbose))
		var p *parse.PoParser
		var err error
		switch c.Via {
		case 0:
			p = parse.NewPoFromString(string(c.Data), "f", o...)
		case 1:
			p = parse.NewPoFromBytes(c.Data, "f", o...)
		case 2:
			p, err = parse.NewPoFromReader(bytes.NewReader(c.Data), "f", o...)
		default:
			p, err = parse.NewPo(path(), o...)
		}
		must(err)
		for i := 0; i < c.Runs; i++ {
			add(p.Parse(), append([]error(nil), p.Errors()...), p.Error())
		}
	case "mo reader":
		p := parse.NewMoFromBytes(c.Data, "f", parse.MoWithMustBeSorted(c.MustBe), parse.MoWithLogger(l))
		for i := 0; i < c.Runs; i++ {
			add(p.Parse(), append([]error(nil), p.Errors()...), p.Error())
		}
	case "go", "go tree":
		o := append(c.Go.options(), goparse.WithLogger(l), goparse.WithVerbose(verbose))
		var p *goparse.Parser
		var err error
		if c.Kind == "go" {
			p, err = goparse.NewParserFromBytes(c.Data, "f.go", o...)
		} else {
			dir := x.Dir()
			must(os.Mkdir(filepath.Join(dir, "sub"), 0o777))
			for n, s := range map[string]string{"x.go": "x", "y.go": "y", "sub/z.go": "x", "notes.txt": "n"} {
				must(os.WriteFile(filepath.Join(dir, n), []byte("package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\nvar _ = gotext.Get(\""+s+"\")\n"), 0o666))
			}
			must(os.WriteFile(filepath.Join(dir, "bad.go"), c.Data, 0o666))
			var paths []string
			for _, s := range c.Paths {
				paths = append(paths, dir+"/"+s)
			}
			p, err = goparse.NewParserFromPaths(paths, o...)
			if err != nil {
				err = errors.New(caseDirs.ReplaceAllString(err.Error(), "/case/N/"))
			}
		}
		if err != nil {
			return []outcome{{fmt.Sprint("no reader: ", err), []error{err}}}
		}
		for i := 0; i < c.Runs; i++ {
			f := p.Parse()
			errs := append([]error(nil), p.Errors()...)
			for _, f := range p.Files() {
				errs = append(errs, f.Errors()...)
			}
			add(f, errs, p.Error())
			out[i].result += fmt.Sprint(errs)
		}
	default:
		var sw *failingWriter
		var w io.Writer
		p := ""
		switch c.Sink {
		case "fits":
			sw = &failingWriter{left: 1 << 30}
		case "part", "short":
			sw = &failingWriter{left: c.Accept, mode: c.Sink}
		case "exists":
			p = path()
		case "new":
			p = filepath.Join(x.Dir(), "f")
		case "nowhere":
			p = filepath.Join(x.Dir(), "no/f")
		}
		if sw != nil {
			w = sw
		}
		var err error
		switch file := clone(c.Entries); {
		case c.Kind == "po writer":
			o := append(c.PO.options(), compile.PoWithLogger(l), compile.PoWithVerbose(verbose), compile.PoWithIgnoreErrors(c.Ignore))
			if w != nil {
				err = compile.PoToWriter(file, w, o...)
			} else {
				err = compile.PoToFile(file, p, o...)
			}
		default:
			c.MO.IgnoreErrors, c.MO.Force = c.Ignore, false
			o := append(c.MO.options(), compile.MoWithLogger(l), compile.MoWithVerbose(verbose))
			if w != nil {
				err = compile.MoToWriter(file, w, o...)
			} else {
				err = compile.MoToFile(file, p, o...)
			}
		}
		o := outcome{}
		if sw != nil {
			o.result = sw.got.String()
		} else if b, rerr := os.ReadFile(p); rerr == nil {
			o.result = string(b)
		}
		if err != nil {
			o.errors = []error{err}
			// the paths of two runs differ
			o.result += caseDirs.ReplaceAllString("\nERROR "+err.Error(), "/case/N/")
		}
		out = append(out, o)
	}
	return out
}

func checkP53(c p53Case, x *Ctx) error {
	quiet := c.run(x, nil, false)
	var buf bytes.Buffer
	var l *log.Logger
	if !c.Log.None {
		l = log.New(&buf, c.Log.Prefix, c.Log.Flags)
	}
	loud := c.run(x, l, c.Log.Verbose)
	if l != nil && (l.Prefix() != c.Log.Prefix || l.Flags() != c.Log.Flags || l.Writer() != io.Writer(&buf)) {
		return fmt.Errorf("%s: the logger was altered", c.Kind)
	}
	x.Label(c.Kind, true)
	x.Label("verbose", c.Log.Verbose)
	if len(quiet) != len(loud) {
		return fmt.Errorf("%d results without a logger, %d with one", len(quiet), len(loud))
	}
	failed := false
	for i := range quiet {
		if quiet[i].result != loud[i].result {
			return fmt.Errorf("%s: without a logger the result is\n%s\nwith one\n%s", c.Kind, quiet[i].result, loud[i].result)
		}
		if a, b := len(quiet[i].errors), len(loud[i].errors); a != b {
			return fmt.Errorf("%s: %d errors without a logger, %d with one", c.Kind, a, b)
		}
		for _, err := range loud[i].errors {
			failed = true
			if l != nil && !strings.Contains(caseDirs.ReplaceAllString(buf.String(), "/case/N/"), caseDirs.ReplaceAllString(err.Error(), "/case/N/")) {
				return fmt.Errorf("%s: the error %q is not in the log %q", c.Kind, err, buf.String())
			}
		}
	}
	x.NonTrivial(failed || c.Log.Verbose)
	x.Label("error", failed)
	x.Label("error, verbose", failed && c.Log.Verbose)
	// (a file that several paths lead to may be noted as skipped)
	if !failed && !c.Log.Verbose && buf.Len() > 0 && len(c.Paths) < 2 {
		return fmt.Errorf("%s: nothing went wrong, yet the log says %q", c.Kind, buf.String())
	}
	return nil
}

// --- P54: options ----------------------------------------------------------------------

// optArg is a value for any option.
type optArg struct {
	B bool
	S string
	N int
}

func (a optArg) rune() rune { return []rune{'!', '~', 'x', 0, 'é'}[a.N%5] }

func (a optArg) list() []string { return []string{a.S, "b", "c"}[:a.N%4%4] }

var optLoggers = []*log.Logger{nil, log.New(io.Discard, "one", 0), log.New(io.Discard, "two", 0)}

var optHeaders = []*po.Header{nil, {}, {Fields: []po.HeaderField{{Key: "X", Value: "1"}}}}

var optHeaderConfigs = []*po.HeaderConfig{nil, {}, {Language: "es"}}

var optHighlights = []compile.CSSClassesHighlighting{nil, {}, {"msgid": {FontWeight: compile.FontWeightBold}}}

// optDef is an option: the field it is to set (none: all of the configuration), the value and the option itself.
type optDef[O any] struct {
	name, field string
	val         func(optArg) any
	opt         func(optArg) O
}

func boolOpt[O any](name, field string, f func(bool) O) optDef[O] {
	return optDef[O]{name, field, func(a optArg) any { return a.B }, func(a optArg) O { return f(a.B) }}
}

func strOpt[O any](name, field string, f func(string) O) optDef[O] {
	return optDef[O]{name, field, func(a optArg) any { return a.S }, func(a optArg) O { return f(a.S) }}
}

func logOpt[O any](name string, f func(*log.Logger) O) optDef[O] {
	return optDef[O]{name, "Logger", func(a optArg) any { return optLoggers[a.N%3] }, func(a optArg) O { return f(optLoggers[a.N%3]) }}
}

func endianOpt[O any, E ~int](f func(E) O) optDef[O] {
	return optDef[O]{"MoWithEndianness", "Endianness", func(a optArg) any { return E(a.N % 3) }, func(a optArg) O { return f(E(a.N % 3)) }}
}

// allOpt replaces all of a configuration.
func allOpt[O, C any](name string, make func(optArg) C, f func(C) O) optDef[O] {
	return optDef[O]{name, "", func(a optArg) any { return make(a) }, func(a optArg) O { return f(make(a)) }}
}

// cfgMaker is a way to get a configuration from options; preset is what it is to be without any.
type cfgMaker[O, C any] struct {
	name   string
	preset C
	make   func([]O) C
}

var poWriterOpts = []optDef[compile.PoOption]{
	boolOpt("PoWithNoColor", "NoColor", compile.PoWithNoColor), boolOpt("PoWithUseCustomObsoletePrefix", "UseCustomObsoletePrefix", compile.PoWithUseCustomObsoletePrefix),
	boolOpt("PoWithManageHeader", "ManageHeader", compile.PoWithManageHeader), boolOpt("PoWithWordWrap", "WordWrap", compile.PoWithWordWrap),
	boolOpt("PoWithHeaderFields", "HeaderFields", compile.PoWithHeaderFields), boolOpt("PoWithHeaderComments", "HeaderComments", compile.PoWithHeaderComments),
	boolOpt("PoWithCommentFuzzy", "CommentFuzzy", compile.PoWithCommentFuzzy), boolOpt("PoWithVerbose", "Verbose", compile.PoWithVerbose),
	boolOpt("PoWithIgnoreErrors", "IgnoreErrors", compile.PoWithIgnoreErrors), boolOpt("PoWithForcePo", "ForcePo", compile.PoWithForcePo),
	boolOpt("PoWithOmitHeader", "OmitHeader", compile.PoWithOmitHeader), boolOpt("PoWithForeignUser", "ForeignUser", compile.PoWithForeignUser),
	boolOpt("PoWithNoLocation", "NoLocation", compile.PoWithNoLocation),
	strOpt("PoWithPackageName", "PackageName", compile.PoWithPackageName), strOpt("PoWithCopyrightHolder", "CopyrightHolder", compile.PoWithCopyrightHolder),
	strOpt("PoWithTitle", "Title", compile.PoWithTitle), strOpt("PoWithMsgstrPrefix", "MsgstrPrefix", compile.PoWithMsgstrPrefix),
	strOpt("PoWithMsgstrSuffix", "MsgstrSuffix", compile.PoWithMsgstrSuffix),
	{"PoWithAddLocation", "AddLocation", func(a optArg) any { return compile.PoLocationMode(a.S) }, func(a optArg) compile.PoOption { return compile.PoWithAddLocation(compile.PoLocationMode(a.S)) }},
	{"PoWithCustomObsoletePrefixRune", "CustomObsoletePrefixRune", func(a optArg) any { return a.rune() }, func(a optArg) compile.PoOption { return compile.PoWithCustomObsoletePrefixRune(a.rune()) }},
	{"PoWithHighlight", "Highlight", func(a optArg) any { return optHighlights[a.N%3] }, func(a optArg) compile.PoOption { return compile.PoWithHighlight(optHighlights[a.N%3]) }},
	logOpt("PoWithLogger", compile.PoWithLogger),
	allOpt("PoWithConfig", func(a optArg) compile.PoConfig {
		return compile.PoConfig{Title: a.S, WordWrap: a.B, NoLocation: !a.B, Logger: optLoggers[a.N%3], HeaderConfig: optHeaderConfigs[a.N%3]}
	}, compile.PoWithConfig),
}

var moWriterOpts = []optDef[compile.MoOption]{
	endianOpt(compile.MoWithEndianness), boolOpt("MoWithDepureEntries", "DepureEntries", compile.MoWithDepureEntries),
	boolOpt("MoWithSortEntries", "SortEntries", compile.MoWithSortEntries), boolOpt("MoWithHashTable", "HashTable", compile.MoWithHashTable),
	boolOpt("MoWithForce", "Force", compile.MoWithForce), boolOpt("MoWithIgnoreErrors", "IgnoreErrors", compile.MoWithIgnoreErrors),
	boolOpt("MoWithVerbose", "Verbose", compile.MoWithVerbose), logOpt("MoWithLogger", compile.MoWithLogger),
	allOpt("MoWithConfig", func(a optArg) compile.MoConfig {
		return compile.MoConfig{Force: a.B, SortEntries: !a.B, Logger: optLoggers[a.N%3]}
	}, compile.MoWithConfig),
}

var poReaderOpts = []optDef[parse.PoOption]{
	boolOpt("PoWithVerbose", "Verbose", parse.PoWithVerbose), boolOpt("PoWithParseObsolete", "ParseObsoletes", parse.PoWithParseObsolete),
	boolOpt("PoWithUseCustomObsoletePrefix", "UseCustomObsoletePrefix", parse.PoWithUseCustomObsoletePrefix),
	boolOpt("PoWithIgnoreAllComments", "IgnoreAllComments", parse.PoWithIgnoreAllComments), boolOpt("PoWithIgnoreComments", "IgnoreComments", parse.PoWithIgnoreComments),
	boolOpt("PoWithSkipHeader", "SkipHeader", parse.PoWithSkipHeader), boolOpt("PoWithCleanDuplicates", "CleanDuplicates", parse.PoWithCleanDuplicates),
	{"PoWithCustomObsoletePrefix", "CustomObsoletePrefix", func(a optArg) any { return a.rune() }, func(a optArg) parse.PoOption { return parse.PoWithCustomObsoletePrefix(a.rune()) }},
	logOpt("PoWithLogger", parse.PoWithLogger),
	allOpt("PoWithConfig", func(a optArg) parse.PoConfig {
		return parse.PoConfig{IgnoreComments: a.B, ParseObsoletes: !a.B, CustomObsoletePrefix: a.rune(), Logger: optLoggers[a.N%3]}
	}, parse.PoWithConfig),
}

var moReaderOpts = []optDef[parse.MoOption]{
	endianOpt(parse.MoWithEndianness), boolOpt("MoWithMustBeSorted", "MustBeSorted", parse.MoWithMustBeSorted), logOpt("MoWithLogger", parse.MoWithLogger),
	allOpt("MoWithConfig", func(a optArg) parse.MoConfig { return parse.MoConfig{MustBeSorted: a.B, Logger: optLoggers[a.N%3]} }, parse.MoWithConfig),
}

var goReaderOpts = []optDef[goparse.Option]{
	boolOpt("WithNoHeader", "NoHeader", goparse.WithNoHeader), boolOpt("WithVerbose", "Verbose", goparse.WithVerbose),
	boolOpt("WithCleanDuplicates", "CleanDuplicates", goparse.WithCleanDuplicates), boolOpt("WithExtractAll", "ExtractAll", goparse.WithExtractAll),
	{"WithExclude", "Exclude", func(a optArg) any { return a.list() }, func(a optArg) goparse.Option { return goparse.WithExclude(a.list()...) }},
	{"WithCustomHeader", "CustomHeader", func(a optArg) any { return optHeaders[a.N%3] }, func(a optArg) goparse.Option { return goparse.WithCustomHeader(optHeaders[a.N%3]) }},
	{"WithHeaderConfig", "HeaderConfig", func(a optArg) any { return optHeaderConfigs[a.N%3] }, func(a optArg) goparse.Option { return goparse.WithHeaderConfig(optHeaderConfigs[a.N%3]) }},
	logOpt("WithLogger", goparse.WithLogger),
	allOpt("WithConfig", func(a optArg) goparse.Config {
		return goparse.Config{ExtractAll: a.B, Exclude: a.list(), Logger: optLoggers[a.N%3], CustomHeader: optHeaders[a.N%3]}
	}, goparse.WithConfig),
}

var mergeOpts = []optDef[po.MergeOption]{
	boolOpt("MergeWithSort", "Sort", po.MergeWithSort), boolOpt("MergeWithFuzzyMatch", "FuzzyMatch", po.MergeWithFuzzyMatch),
	boolOpt("MergeWithKeepPreviousIDs", "KeepPreviousIDs", po.MergeWithKeepPreviousIDs),
	{"MergeWithSortMode", "SortMode", func(a optArg) any { return po.SortMode(a.N) }, func(a optArg) po.MergeOption { return po.MergeWithSortMode(po.SortMode(a.N)) }},
	allOpt("MergeWithMergeConfig", func(a optArg) po.MergeConfig {
		return po.MergeConfig{Sort: a.B, FuzzyMatch: !a.B, SortMode: po.SortMode(a.N)}
	}, po.MergeWithMergeConfig),
}

var msgcatOpts = []optDef[po.MsgcatMergeOption]{
	boolOpt("MsgcatMergeWithUseFirst", "UseFirst", po.MsgcatMergeWithUseFirst),
	{"MsgcatMergeWithLessThan", "LessThan", func(a optArg) any { return uint(a.N) }, func(a optArg) po.MsgcatMergeOption { return po.MsgcatMergeWithLessThan(uint(a.N)) }},
	{"MsgcatMergeWithMoreThan", "MoreThan", func(a optArg) any { return uint(a.N) }, func(a optArg) po.MsgcatMergeOption { return po.MsgcatMergeWithMoreThan(uint(a.N)) }},
	allOpt("MsgcatMergeWithConfig", func(a optArg) po.MsgcatMergeConfig {
		return po.MsgcatMergeConfig{UseFirst: a.B, LessThan: uint(a.N)}
	}, po.MsgcatMergeWithConfig),
}

type p54Op struct {
	Which int
	Arg   optArg
}

type p54Case struct {
	Kind int
	Via  int
	Ops  []p54Op
}

// cfgKind checks the options of one kind of configuration.
type cfgKind struct {
	name  string
	nopts int
	nvia  int
	check func(c p54Case, x *Ctx) error
}

func sameValue(a, b reflect.Value) bool {
	if a.Kind() == reflect.Pointer {
		return a.Pointer() == b.Pointer()
	}
	if a.Kind() == reflect.Slice && a.Len() == 0 {
		return b.Len() == 0
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// sameConfig compares all exported fields; a logger that discards everything may stand for none at the start.
func sameConfig(got, want any, presetLogger bool) error {
	g, w := reflect.ValueOf(got), reflect.ValueOf(want)
	for i := 0; i < g.NumField(); i++ {
		f := g.Type().Field(i)
		if !f.IsExported() {
			continue
		}
		if l, ok := g.Field(i).Interface().(*log.Logger); ok && presetLogger {
			if l != nil && l.Writer() != io.Discard {
				return fmt.Errorf("by default, log messages go to %v", l.Writer())
			}
			continue
		}
		if !sameValue(g.Field(i), w.Field(i)) {
			return fmt.Errorf("%s is %+v, want %+v", f.Name, g.Field(i).Interface(), w.Field(i).Interface())
		}
	}
	return nil
}

func newCfgKind[O, C any](name string, defs []optDef[O], makers []cfgMaker[O, C]) cfgKind {
	return cfgKind{name, len(defs), len(makers), func(c p54Case, x *Ctx) error {
		m := makers[c.Via]
		want := m.preset
		v := reflect.ValueOf(&want).Elem()
		presetLogger := true
		var opts []O
		names := m.name + " with"
		for _, op := range c.Ops {
			d := defs[op.Which]
			opts = append(opts, d.opt(op.Arg))
			val := reflect.ValueOf(d.val(op.Arg))
			names += fmt.Sprintf(" %s(%+v)", d.name, val.Interface())
			if d.field == "" {
				for i := 0; i < v.NumField(); i++ {
					if v.Type().Field(i).IsExported() {
						v.Field(i).Set(val.Field(i))
					}
				}
				presetLogger = false
			} else {
				v.FieldByName(d.field).Set(val)
				presetLogger = presetLogger && d.field != "Logger"
			}
		}
		for i := 0; i < 2; i++ { // using options does not wear them off
			if err := sameConfig(m.make(opts), want, presetLogger); err != nil {
				return fmt.Errorf("%s %s: %v", name, names, err)
			}
		}
		if err := sameConfig(m.make(nil), m.preset, true); err != nil {
			return fmt.Errorf("%s %s without options after %s: %v", name, m.name, names, err)
		}
		if p, ok := any(m.make(opts)).(compile.PoConfig); ok {
			if err := p.Validate(); (err != nil) != (p.NoLocation && p.AddLocation != compile.PoLocationModeNever) {
				return fmt.Errorf("%s %s: no references %v, mode of references %q: %v", name, names, p.NoLocation, p.AddLocation, err)
			}
		}
		return nil
	}}
}

var (
	poWriterPreset = compile.PoConfig{PackageName: "PACKAGE NAME", AddLocation: compile.PoLocationModeFull}
	moWriterPreset = compile.MoConfig{HashTable: true, DepureEntries: true, SortEntries: true}
	poReaderPreset = parse.PoConfig{CleanDuplicates: true, ParseObsoletes: true}
	goReaderPreset = goparse.Config{CleanDuplicates: true}
	mergePreset    = po.MergeConfig{FuzzyMatch: true, Sort: true, SortMode: po.SortByAll}
	msgcatPreset   = po.MsgcatMergeConfig{LessThan: ^uint(0)}
)

var cfgKinds = []cfgKind{
	newCfgKind("PO writer", poWriterOpts, []cfgMaker[compile.PoOption, compile.PoConfig]{
		{"NewPoConfigFromOptions", compile.PoConfig{}, func(o []compile.PoOption) compile.PoConfig { return compile.NewPoConfigFromOptions(o...) }},
		{"DefaultPoConfig", poWriterPreset, func(o []compile.PoOption) compile.PoConfig { return compile.DefaultPoConfig(o...) }},
		{"NewPo", poWriterPreset, func(o []compile.PoOption) compile.PoConfig { return compile.NewPo(&po.File{}, o...).Config }},
		{"ApplyOptions", poWriterPreset, func(o []compile.PoOption) compile.PoConfig {
			c := compile.DefaultPoConfig()
			c.ApplyOptions(o...)
			return c
		}},
	}),
	newCfgKind("MO writer", moWriterOpts, []cfgMaker[compile.MoOption, compile.MoConfig]{
		{"DefaultMoConfig", moWriterPreset, func(o []compile.MoOption) compile.MoConfig { return compile.DefaultMoConfig(o...) }},
		{"NewMo", moWriterPreset, func(o []compile.MoOption) compile.MoConfig { return compile.NewMo(&po.File{}, o...).Config }},
		{"ApplyOptions", compile.MoConfig{}, func(o []compile.MoOption) compile.MoConfig {
			var c compile.MoConfig
			c.ApplyOptions(o...)
			return c
		}},
	}),
	newCfgKind("PO reader", poReaderOpts, []cfgMaker[parse.PoOption, parse.PoConfig]{
		{"DefaultPoConfig", poReaderPreset, func(o []parse.PoOption) parse.PoConfig { return parse.DefaultPoConfig(o...) }},
		{"NewPoFromString", poReaderPreset, func(o []parse.PoOption) parse.PoConfig { return parse.NewPoFromString("", "n", o...).Config }},
		{"NewPoFromBytes", poReaderPreset, func(o []parse.PoOption) parse.PoConfig { return parse.NewPoFromBytes(nil, "n", o...).Config }},
		{"NewPoFromReader", poReaderPreset, func(o []parse.PoOption) parse.PoConfig {
			p, err := parse.NewPoFromReader(strings.NewReader(""), "n", o...)
			must(err)
			return p.Config
		}},
		{"ApplyOptions", parse.PoConfig{}, func(o []parse.PoOption) parse.PoConfig {
			var c parse.PoConfig
			c.ApplyOptions(o...)
			return c
		}},
	}),
	newCfgKind("MO reader", moReaderOpts, []cfgMaker[parse.MoOption, parse.MoConfig]{
		{"DefaultMoConfig", parse.MoConfig{}, func(o []parse.MoOption) parse.MoConfig { return parse.DefaultMoConfig(o...) }},
		{"NewMoFromBytes", parse.MoConfig{}, func(o []parse.MoOption) parse.MoConfig { return parse.NewMoFromBytes(nil, "n", o...).Config }},
		{"NewMoFromReader", parse.MoConfig{}, func(o []parse.MoOption) parse.MoConfig {
			p, err := parse.NewMoFromReader(strings.NewReader(""), "n", o...)
			must(err)
			return p.Config
		}},
	}),
	newCfgKind("Go reader", goReaderOpts, []cfgMaker[goparse.Option, goparse.Config]{
		{"DefaultConfig", goReaderPreset, func(o []goparse.Option) goparse.Config { return goparse.DefaultConfig(o...) }},
		{"NewParserFromString", goReaderPreset, func(o []goparse.Option) goparse.Config {
			p, err := goparse.NewParserFromString("package p", "n.go", o...)
			must(err)
			return p.Config
		}},
		{"NewParserFromBytes", goReaderPreset, func(o []goparse.Option) goparse.Config {
			p, err := goparse.NewParserFromBytes([]byte("package p"), "n.go", o...)
			must(err)
			return p.Config
		}},
		{"NewParserFromPaths", goReaderPreset, func(o []goparse.Option) goparse.Config {
			p, err := goparse.NewParserFromPaths(nil, o...)
			must(err)
			return p.Config
		}},
		{"ApplyOptions", goparse.Config{}, func(o []goparse.Option) goparse.Config {
			var c goparse.Config
			c.ApplyOptions(o...)
			return c
		}},
	}),
	newCfgKind("merging", mergeOpts, []cfgMaker[po.MergeOption, po.MergeConfig]{
		{"DefaultMergeConfig", mergePreset, func(o []po.MergeOption) po.MergeConfig { return po.DefaultMergeConfig(o...) }},
		{"ApplyOption", po.MergeConfig{}, func(o []po.MergeOption) po.MergeConfig {
			var c po.MergeConfig
			c.ApplyOption(o...)
			return c
		}},
	}),
	newCfgKind("concatenation", msgcatOpts, []cfgMaker[po.MsgcatMergeOption, po.MsgcatMergeConfig]{
		{"DefaultMsgcatMergeConfig", msgcatPreset, func(o []po.MsgcatMergeOption) po.MsgcatMergeConfig { return po.DefaultMsgcatMergeConfig(o...) }},
		{"ApplyOption", po.MsgcatMergeConfig{}, func(o []po.MsgcatMergeOption) po.MsgcatMergeConfig {
			var c po.MsgcatMergeConfig
			c.ApplyOption(o...)
			return c
		}},
	}),
}

func drawP54(t *rapid.T) p54Case {
	c := p54Case{Kind: intn(t, "kind", 0, len(cfgKinds)-1)}
	k := cfgKinds[c.Kind]
	c.Via = intn(t, "via", 0, k.nvia-1)
	for i := intn(t, "nops", 0, 10); i > 0; i-- {
		c.Ops = append(c.Ops, p54Op{intn(t, "which", 0, k.nopts-1), optArg{rapid.Bool().Draw(t, "b"), oneOf(t, "s", "", "never", "full", "file", "a b"), intn(t, "n", 0, 9)}})
	}
	return c
}

func checkP54(c p54Case, x *Ctx) error {
	x.NonTrivial(len(c.Ops) > 1)
	x.Label(cfgKinds[c.Kind].name, true)
	return cfgKinds[c.Kind].check(c, x)
}

func init() {
	register("P53", 40000, 800000, "PO, MO and Go content (sound, damaged, mutated) read, and messages written to sound, failing and unopenable destinations, with all options, without and with a logger; non-trivial: something fails or the log is verbose", drawP53, checkP53)
	register("P54", 100000, 2000000, "up to ten options in any order, repeated, with whole configurations in between, for each kind of configuration, through each way to make one; non-trivial: two options", drawP54, checkP54)
}
