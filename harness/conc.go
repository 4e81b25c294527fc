package main

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"
	"sync"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
	"pgregory.net/rapid"
)

// --- P39: concurrency ----------------------------------------------------------------

type concOp struct {
	Kind string
	PO   poWriteOpts
	Read poReadOpts
	MO   moWriteOpts
	All  bool
}

type p39Case struct {
	Catalog, Other po.Entries
	Source         goFile
	Ops            []concOp
	Copies         int
	Procs          int
}

var concKinds = []string{"read po", "write po", "read po", "write po", "compile", "read mo", "merge", "concat", "extract", "sort", "solve", "clean", "lookup", "equal", "validate", "header", "string", "similar", "round trip"}

func drawP39(t *rapid.T) p39Case {
	c := p39Case{Catalog: entries(t, allOpts, 0, 6), Other: entries(t, allOpts, 0, 4)}
	h := header() // unlike that of any other case
	h.Str = strings.Replace(h.Str, "nplurals=2;", fmt.Sprintf("nplurals=%d;", intn(t, "nplurals", 1, 1<<30)), 1)
	if chance(t, "othernplurals", 30) {
		h.Str = strings.Replace(h.Str, "charset=UTF-8", oneOf(t, "hcharset", "charset=ISO-8859-1", "charset=CHARSET", "charset=utf-8"), 1)
	}
	h.Str += "X-Case: " + oneLine(text(t, "hextra")) + "\n"
	c.Catalog = append(po.Entries{h}, c.Catalog...)
	if len(c.Catalog) > 1 && chance(t, "dup", 30) {
		e := canon(c.Catalog[1])
		e.Str = text(t, "dupstr")
		c.Catalog = append(c.Catalog, e)
	}
	c.Source = goProgram(t, "x.go", false, map[string]string{})
	for i := intn(t, "nops", 2, 5); i > 0; i-- {
		o := concOp{Kind: oneOf(t, "op", concKinds...), MO: drawMoWriteOpts(t), All: chance(t, "all", 50)}
		if o.Kind == "read po" {
			if o.Read = drawReadOpts(t); chance(t, "customread", 40) {
				o.Read.Custom, o.Read.Prefix = true, oneOf(t, "prefix", '!', '$', '*', '+', 'x', 'é', rune(intn(t, "anyprefix", 0x100, 0xd000)))
			}
		}
		if strings.HasPrefix(o.Kind, "write") {
			o.PO = drawWriteOpts(t)
			o.PO.Manage = false // writes the time
		}
		c.Ops = append(c.Ops, o)
	}
	c.Copies = intn(t, "copies", 1, 4)
	c.Procs = oneOf(t, "procs", 2, 4, 4, 8)
	return c
}

// shared is what all goroutines use at once.
type shared struct {
	catalog, other *po.File
	text           []byte
	mo             []byte
	src            goFile
}

// run runs one operation and renders its result.
func (o concOp) run(s *shared) string {
	switch o.Kind {
	case "read po":
		f, err := parse.PoFromBytes(s.text, "x.po", o.Read.options()...)
		return js(f) + fmt.Sprint(err)
	case "write po":
		var b bytes.Buffer
		err := compile.PoToWriter(s.catalog, &b, o.PO.options()...)
		return b.String() + fmt.Sprint(err)
	case "compile":
		var b bytes.Buffer
		err := compile.MoToWriter(s.catalog, &b, append(o.MO.options(), compile.MoWithIgnoreErrors(true))...)
		return fmt.Sprintf("%x %v", b.Bytes(), err)
	case "read mo":
		f, err := parse.MoFromBytes(s.mo, "x.mo")
		return js(f) + fmt.Sprint(err)
	case "merge":
		return js(po.Merge(s.catalog.Entries, s.other.Entries, po.MergeWithFuzzyMatch(o.All)))
	case "concat":
		return js(po.MsgcatMergeFiles([]*po.File{s.catalog, s.other, s.catalog}, po.MsgcatMergeWithUseFirst(o.All)))
	case "extract":
		f, err := goparse.FromBytes([]byte(s.src.Src), s.src.Name, goparse.WithHeaderConfig(fixedHeaderConfig()), goparse.WithExtractAll(o.All))
		return js(f) + fmt.Sprint(err)
	case "sort":
		own := clone(s.other.Entries) // Sort works in place
		return js(own.Sort()) + js(own.SortFunc(po.CompareEntryByFile)) + js(s.catalog.IsSorted())
	case "solve":
		return js(s.catalog.Solve()) + js(s.catalog.SolveFunc(po.MergeUsingPriorAsBase(s.other.Entries)))
	case "clean":
		return js(s.catalog.CleanDuplicates()) + js(s.catalog.CleanFuzzy()) + js(s.catalog.CleanObsoletes()) + js(s.catalog.CleanEmpties()) + js(s.catalog.CutHeader())
	case "lookup":
		var r []string
		for _, e := range s.catalog.Entries {
			r = append(r, fmt.Sprint(s.catalog.Index(e.ID, e.Context), s.catalog.Load(e.ID, e.Context), s.catalog.LoadByUnifiedID(e.UnifiedID()), e.Hash()))
		}
		return js(r)
	case "equal":
		return fmt.Sprint(s.catalog.Equal(*s.other), s.catalog.Equal(*s.catalog), s.other.Entries.Equal(s.other.Entries))
	case "validate":
		return fmt.Sprint(s.catalog.Validate(), s.catalog.Entries.Validate(), s.catalog.CatchDuplicateEntries(), s.catalog.HasDuplicates())
	case "header":
		h := s.catalog.Header()
		return js(h.ToEntry()) + fmt.Sprint(h.Nplurals(), h.Load("Language")) + js(h.ToConfig()) + js(h.ToConfig().ToHeader()) + fmt.Sprint(h.ToConfig().Validate())
	case "string":
		return s.catalog.String() + s.other.Entries.String()
	case "similar":
		var r []string
		for _, e := range s.other.Entries {
			a, b := s.catalog.BestIDRatio(e)
			r = append(r, fmt.Sprint(a, b, s.catalog.FuzzyFind(e.ID, e.Context)))
		}
		return js(r)
	case "round trip":
		var b bytes.Buffer
		if err := compile.PoToWriter(s.catalog, &b); err != nil {
			return err.Error()
		}
		f, err := parse.PoFromBytes(b.Bytes(), "y.po")
		return js(f) + fmt.Sprint(err)
	}
	panic(harnessError{fmt.Errorf("unknown operation %s", o.Kind)})
}

func checkP39(c p39Case, x *Ctx) error {
	must(c.Source.valid())
	s := &shared{catalog: &po.File{Name: "a.po", Entries: clone(c.Catalog)}, other: &po.File{Name: "b.po", Entries: clone(c.Other)}, src: c.Source}
	s.text = []byte(plainPO(c.Other))
	var m bytes.Buffer
	must(compile.MoToWriter(&po.File{Entries: dedupeAll(clone(c.Other))}, &m, compile.MoWithIgnoreErrors(true)))
	s.mo = m.Bytes()

	x.NonTrivial(len(c.Ops)*c.Copies > 2)
	x.Label("four or more goroutines", len(c.Ops)*c.Copies >= 4)

	old := runtime.GOMAXPROCS(c.Procs)
	defer runtime.GOMAXPROCS(old)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var failed error
	results := make([][]string, len(c.Ops))
	for i := range results {
		results[i] = make([]string, c.Copies)
	}
	start := make(chan struct{})
	for i := range c.Ops {
		for j := 0; j < c.Copies; j++ {
			wg.Add(1)
			go func(i, j int) {
				defer wg.Done()
				err := func() (err error) {
					defer func() {
						if r := recover(); r != nil {
							err = fmt.Errorf("panic in %q when run concurrently: %v", c.Ops[i].Kind, r)
						}
					}()
					<-start
					results[i][j] = c.Ops[i].run(s)
					return nil
				}()
				if err != nil {
					mu.Lock()
					failed = err
					mu.Unlock()
				}
			}(i, j)
		}
	}
	close(start)
	wg.Wait()
	if failed != nil {
		return failed
	}
	// Alone only now, so that nothing is known from before; and on copies.
	for i, o := range c.Ops {
		own := *s
		own.catalog, own.other = &po.File{Name: "a.po", Entries: clone(c.Catalog)}, &po.File{Name: "b.po", Entries: clone(c.Other)}
		alone := o.run(&own)
		for _, got := range results[i] {
			if got != alone {
				return fmt.Errorf("%q gives another result when run concurrently:\n%s\nalone:\n%s", o.Kind, got, alone)
			}
		}
		x.Label(o.Kind, true)
	}
	return nil
}

func init() {
	register("P39", 8000, 160000, "two to five operations (of reading, writing, compiling, merging, concatenating, extracting, ordering, filtering, looking up) on one shared catalog, each in one to four goroutines released together, under the race detector, compared with the results of each running alone on a copy; non-trivial: more than two goroutines", drawP39, checkP39)
}
