// Command vh is the property-based checker for gotext-tools. See ../DESIGN.md.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx is what an oracle may use while judging one case.
type Ctx struct {
	Tools      string // directory with the built command-line tools, if any
	Scratch    string // scratch directory of this child process
	nontrivial bool
	labels     map[string]bool
	n          int
}

func (c *Ctx) NonTrivial(b bool) {
	if b {
		c.nontrivial = true
	}
}

func (c *Ctx) Label(l string, cond bool) {
	if cond {
		c.labels[l] = true
	}
}

// Dir returns a fresh, empty directory that is removed after the case.
func (c *Ctx) Dir() string {
	c.n++
	d := filepath.Join(c.Scratch, "case", strconv.Itoa(c.n))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(harnessError{err})
	}
	return d
}

func (c *Ctx) cleanup() {
	if c.n > 0 {
		os.RemoveAll(filepath.Join(c.Scratch, "case"))
		c.n = 0
	}
}

// harnessError marks a failure of the harness itself: never a violation.
type harnessError struct{ err error }

func (h harnessError) Error() string { return "harness: " + h.err.Error() }

func must(err error) {
	if err != nil {
		panic(harnessError{err})
	}
}

type prop struct {
	id       string
	rule     string
	quick    int
	thorough int
	shards   int
	draw     func(*rapid.T) any
	decode   func([]byte) (any, error)
	check    func(any, *Ctx) error
}

var props = map[string]*prop{}

func register[C any](id string, quick, thorough int, rule string, gen func(*rapid.T) C, check func(C, *Ctx) error) {
	props[id] = &prop{
		id: id, rule: rule, quick: quick, thorough: thorough, shards: 4,
		draw: func(t *rapid.T) any { return gen(t) },
		decode: func(b []byte) (any, error) {
			var c C
			d := json.NewDecoder(bytes.NewReader(b))
			err := d.Decode(&c)
			return c, err
		},
		check: func(c any, x *Ctx) error { return check(c.(C), x) },
	}
}

var (
	fID      = flag.String("id", "", "property")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Int64("seed", 1, "seed")
	fVerif   = flag.String("verif", "/verif", "verif dir")
	fTools   = flag.String("tools", "", "tools dir")
	fScratch = flag.String("scratch", "", "scratch dir")
	fReplay  = flag.String("replay", "", "replay file")
	fChild   = flag.String("child", "", "result file; child mode")
	fCases   = flag.Int("cases", 0, "override number of cases")
	fShards  = flag.Int("shards", 0, "override number of shards")
	fShard   = flag.Int("shard", 0, "shard index (child)")
	fPrint   = flag.Int("print", 0, "print this many generated cases and exit")
)

// replayFile is the format of replay and corpus files.
type replayFile struct {
	Property string          `json:"property"`
	Error    string          `json:"error,omitempty"`
	Note     string          `json:"note,omitempty"`
	Case     json.RawMessage `json:"case"`
}

// result is what a child reports.
type result struct {
	Violation   bool            `json:"violation"`
	Harness     string          `json:"harness,omitempty"`
	Error       string          `json:"error,omitempty"`
	Case        json.RawMessage `json:"case,omitempty"`
	Evaluations int             `json:"evaluations"`
	Nontrivial  int             `json:"nontrivial"`
	Labels      map[string]int  `json:"labels"`
	Samples     []string        `json:"samples"`
	Corpus      int             `json:"corpus"`
}

const maxCaseCPU = 25 * time.Second

func main() {
	testing.Init()
	flag.Parse()
	if *fID == "list" {
		ids := []string{}
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	p := props[*fID]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *fID)
		os.Exit(2)
	}
	if *fScratch == "" {
		d, err := os.MkdirTemp("", "vh-")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*fScratch = d
		code := run(p)
		os.RemoveAll(d)
		os.Exit(code)
	}
	os.Exit(run(p))
}

func run(p *prop) int {
	switch {
	case *fPrint > 0:
		return printCases(p)
	case *fChild != "":
		return child(p)
	case *fReplay != "":
		return replay(p, *fReplay)
	}
	return supervise(p)
}

func printCases(p *prop) int {
	setRapid(*fSeed, *fPrint)
	rapid.Check(&quietTB{}, func(t *rapid.T) {
		b, err := json.Marshal(p.draw(t))
		must(err)
		fmt.Println(string(b))
	})
	return 0
}

func setRapid(seed int64, checks int) {
	u := uint64(seed)
	u = u*0x9E3779B97F4A7C15 + 0x1234567
	if u == 0 {
		u = 1
	}
	flag.Set("rapid.seed", strconv.FormatUint(u, 10))
	flag.Set("rapid.checks", strconv.Itoa(checks))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
}

// quietTB is the rapid.TB of the program.
type quietTB struct {
	failed bool
	msgs   []string
}

type tbExit struct{}

func (q *quietTB) Helper()      {}
func (q *quietTB) Name() string { return "vh" }
func (q *quietTB) Logf(format string, args ...any) {
	if len(q.msgs) < 20 {
		q.msgs = append(q.msgs, fmt.Sprintf(format, args...))
	}
}
func (q *quietTB) Log(args ...any)           { q.Logf("%s", fmt.Sprint(args...)) }
func (q *quietTB) Skipf(f string, a ...any)  { panic(tbExit{}) }
func (q *quietTB) Skip(args ...any)          { panic(tbExit{}) }
func (q *quietTB) SkipNow()                  { panic(tbExit{}) }
func (q *quietTB) Errorf(f string, a ...any) { q.Logf(f, a...); q.failed = true }
func (q *quietTB) Error(args ...any)         { q.Log(args...); q.failed = true }
func (q *quietTB) Fatalf(f string, a ...any) { q.Logf(f, a...); q.failed = true; panic(tbExit{}) }
func (q *quietTB) Fatal(args ...any)         { q.Log(args...); q.failed = true; panic(tbExit{}) }
func (q *quietTB) FailNow()                  { q.failed = true; panic(tbExit{}) }
func (q *quietTB) Fail()                     { q.failed = true }
func (q *quietTB) Failed() bool              { return q.failed }

func cpuTime() time.Duration {
	var r syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &r)
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

// evaluate runs the oracle on one case, turning panics of the tested code into errors.
func evaluate(p *prop, c any, x *Ctx) (err error) {
	defer x.cleanup()
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				err = h
				return
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return p.check(c, x)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "gotext-tools") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func newCtx() *Ctx {
	return &Ctx{Tools: *fTools, Scratch: *fScratch, labels: map[string]bool{}}
}

type childState struct {
	mu      sync.Mutex
	started time.Duration
	active  bool
	raw     []byte
	seq     int64
}

func writeResult(r *result) {
	b, err := json.Marshal(r)
	if err == nil {
		err = os.WriteFile(*fChild, b, 0o600)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func child(p *prop) int {
	debug.SetMaxStack(128 << 20)
	res := &result{Labels: map[string]int{}}
	seen := map[[8]byte]bool{}
	var st childState
	curFile, err := os.OpenFile(*fChild+".cur", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
	must(err)

	// Watchdog: CPU time of this process spent on one case, and memory.
	var stop atomic.Bool
	go func() {
		for !stop.Load() {
			time.Sleep(250 * time.Millisecond)
			st.mu.Lock()
			active, started, raw := st.active, st.started, st.raw
			st.mu.Unlock()
			if !active {
				continue
			}
			var why string
			if used := cpuTime() - started; used > maxCaseCPU {
				why = fmt.Sprintf("does not terminate: %v of CPU time used on one case", used.Round(time.Second))
			}
			var m runtime.MemStats
			if why == "" {
				runtime.ReadMemStats(&m)
				if m.HeapAlloc > 3<<30 {
					why = fmt.Sprintf("runaway memory: %d MB live on one case", m.HeapAlloc>>20)
				}
			}
			if why != "" {
				writeResult(&result{Violation: true, Error: why, Case: raw})
				os.Exit(0)
			}
		}
	}()

	var harnessErr error
	var lastFail json.RawMessage
	var lastErr string
	one := func(raw []byte) error {
		c, err := p.decode(raw)
		must(err)
		x := newCtx()
		// note the current case for fatal errors that cannot be recovered
		curFile.Truncate(0)
		curFile.WriteAt(raw, 0)
		st.mu.Lock()
		st.active, st.started, st.raw = true, cpuTime(), raw
		st.mu.Unlock()
		err = evaluate(p, c, x)
		st.mu.Lock()
		st.active = false
		st.mu.Unlock()
		if _, ok := err.(harnessError); ok {
			if harnessErr == nil {
				harnessErr = err
			}
			return nil
		}
		if lastFail == nil {
			res.Evaluations++
			for l := range x.labels {
				res.Labels[l]++
			}
			h := sha256.Sum256(raw)
			var k [8]byte
			copy(k[:], h[:8])
			if x.nontrivial && !seen[k] {
				seen[k] = true
				if n := len(seen); n <= 3 || n == 50 || n == 500 {
					s := string(raw)
					if len(s) > 1500 {
						s = s[:1500] + "...(cut)"
					}
					res.Samples = append(res.Samples, s)
				}
			}
		}
		if err != nil {
			lastFail = append([]byte(nil), raw...)
			lastErr = err.Error()
		}
		return err
	}

	// 1. committed corpus (first shard only)
	if *fShard == 0 {
		for _, f := range corpusFiles(p.id) {
			rf, err := readReplay(f)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			res.Corpus++
			if err := one(rf.Case); err != nil {
				break
			}
		}
	}

	// 2. generated cases
	if lastFail == nil && *fCases > 0 {
		setRapid(*fSeed*1000+int64(*fShard), *fCases)
		tb := &quietTB{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(tbExit); ok {
						return
					}
					if h, ok := r.(harnessError); ok {
						harnessErr = h
						return
					}
					harnessErr = fmt.Errorf("rapid: %v\n%s", r, debug.Stack())
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				c := p.draw(t)
				raw, err := json.Marshal(c)
				if err != nil {
					panic(harnessError{err})
				}
				if err := one(raw); err != nil {
					t.Fatalf("%s", firstLine(err.Error()))
				}
			})
		}()
		if tb.failed && lastFail == nil && harnessErr == nil {
			harnessErr = errors.New("rapid failed without a failing case: " + strings.Join(tb.msgs, "; "))
		}
	}
	stop.Store(true)
	res.Nontrivial = len(seen)
	if lastFail != nil {
		res.Violation, res.Case, res.Error = true, lastFail, lastErr
	} else if harnessErr != nil {
		res.Harness = harnessErr.Error()
	}
	// distinct hashes for merging
	var hb bytes.Buffer
	for k := range seen {
		binary.Write(&hb, binary.LittleEndian, k)
	}
	must(os.WriteFile(*fChild+".hashes", hb.Bytes(), 0o600))
	writeResult(res)
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	// rapid matches failures by traceback; keep messages coarse anyway
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

func corpusFiles(id string) []string {
	fs, _ := filepath.Glob(filepath.Join(*fVerif, "corpus", id, "*.json"))
	sort.Strings(fs)
	return fs
}

func readReplay(f string) (*replayFile, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		return nil, fmt.Errorf("%s: %w", f, err)
	}
	return &rf, nil
}

// replayRuns is how often a case is replayed besides once.
var replayRuns = map[string]int{"P39": 30}

func replay(p *prop, f string) int {
	rf, err := readReplay(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c, err := p.decode(rf.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if os.Getenv("VH_DIRECT") == "" {
		// In a process of its own, since it may end in a fatal error; repeated where schedules matter.
		for i := 0; i < replayRuns[p.id]+1; i++ {
			self, err := os.Executable()
			must(err)
			cmd := exec.Command(self, os.Args[1:]...)
			cmd.Env = append(os.Environ(), "VH_DIRECT=1", "GORACE=halt_on_error=1 exitcode=66")
			b, err := cmd.CombinedOutput()
			switch code := cmd.ProcessState.ExitCode(); {
			case err == nil:
			case code == 1 || code == 2 && !strings.Contains(string(b), "fatal error: "):
				os.Stdout.Write(b)
				return code
			default:
				os.Stdout.WriteString(cut(string(b), 6000))
				fmt.Printf("\nVIOLATION property=%s replay=%s\n", p.id, f)
				return 1
			}
		}
		fmt.Println("replay passes")
		return 0
	}
	err = evaluate(p, c, newCtx())
	if _, ok := err.(harnessError); ok {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err != nil {
		fmt.Println(err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, f)
		return 1
	}
	fmt.Println("replay passes")
	return 0
}

type known struct {
	id, file, text string
}

// knownFindings reads the "known:" lines: known: property=<id> case=<file> <what fails>
func knownFindings(id string) []known {
	b, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		var rest string
		if r, ok := strings.CutPrefix(l, "known: property="+id+" case="); ok {
			rest = r
		} else {
			continue
		}
		f, text, _ := strings.Cut(rest, " ")
		ks = append(ks, known{id, filepath.Join(*fVerif, f), text})
	}
	return ks
}

func supervise(p *prop) int {
	start := time.Now()
	shards := p.shards
	if *fTier == "thorough" && shards > 1 {
		shards = 8
	}
	if *fShards > 0 {
		shards = *fShards
	}
	total := p.quick
	if *fTier == "thorough" {
		total = p.thorough
	}
	if *fCases > 0 {
		total = *fCases
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	// known findings: re-run their stored case, report, never fail
	for _, k := range knownFindings(p.id) {
		rf, err := readReplay(k.file)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		c, err := p.decode(rf.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if err := evaluate(p, c, newCtx()); err != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.id, k.text)
		}
	}

	type out struct {
		res    *result
		stderr string
		err    error
		file   string
	}
	outs := make([]out, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sc := filepath.Join(*fScratch, fmt.Sprintf("shard%d", i))
			if err := os.MkdirAll(sc, 0o755); err != nil {
				outs[i].err = err
				return
			}
			rf := filepath.Join(sc, "result.json")
			args := []string{
				"-id", p.id, "-tier", *fTier, "-seed", strconv.FormatInt(*fSeed, 10), "-verif", *fVerif,
				"-tools", *fTools, "-scratch", sc, "-child", rf,
				"-cases", strconv.Itoa((total + shards - 1) / shards), "-shard", strconv.Itoa(i),
			}
			cmd := exec.Command(self, args...)
			cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66")
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			var eb bytes.Buffer
			cmd.Stderr = &eb
			cmd.Stdout = os.Stderr
			runtime.LockOSThread()
			err := cmd.Run()
			runtime.UnlockOSThread()
			outs[i].stderr = eb.String()
			outs[i].file = rf
			b, rerr := os.ReadFile(rf)
			if rerr == nil {
				var r result
				if jerr := json.Unmarshal(b, &r); jerr == nil {
					outs[i].res = &r
					return
				}
			}
			// died without a result: a fatal error inside the tested code?
			cur, cerr := os.ReadFile(rf + ".cur")
			es := outs[i].stderr
			fatal := strings.Contains(es, "fatal error: ") || strings.Contains(es, "WARNING: DATA RACE") ||
				strings.Contains(es, "goroutine stack exceeds")
			if cerr == nil && len(cur) > 0 && fatal && !strings.Contains(es, "newosproc") &&
				(strings.Contains(es, "gotext-tools/v2/pkg") || strings.Contains(es, "gotext-tools/v2/internal")) {
				outs[i].res = &result{Violation: true, Error: "fatal error in the code under test:\n" + cut(es, 3000), Case: cur}
				return
			}
			// The harness itself ends with 2 (as a panic does), or 0 after it has written a result.
			if code := cmd.ProcessState.ExitCode(); cerr == nil && len(cur) > 0 && (code == 0 || code == 1) {
				outs[i].res = &result{Violation: true, Error: fmt.Sprintf("the code under test ended the process with exit status %d:\n%s", code, cut(es, 3000)), Case: cur}
				return
			}
			outs[i].err = fmt.Errorf("shard %d died: %v\n%s", i, err, cut(es, 4000))
		}(i)
	}
	wg.Wait()

	merged := &result{Labels: map[string]int{}}
	distinct := map[string]bool{}
	var viol *result
	var herr string
	for i := range outs {
		o := outs[i]
		if o.res == nil {
			herr = o.err.Error()
			continue
		}
		if o.res.Violation && viol == nil {
			viol = o.res
		}
		if o.res.Harness != "" {
			herr = o.res.Harness
		}
		merged.Evaluations += o.res.Evaluations
		merged.Corpus += o.res.Corpus
		for k, v := range o.res.Labels {
			merged.Labels[k] += v
		}
		if len(merged.Samples) < 8 {
			merged.Samples = append(merged.Samples, o.res.Samples...)
		}
		hb, _ := os.ReadFile(o.file + ".hashes")
		for j := 0; j+8 <= len(hb); j += 8 {
			distinct[string(hb[j:j+8])] = true
		}
	}

	violations := 0
	if viol != nil {
		violations = 1
	}
	ev := map[string]any{
		"property": p.id, "tier": *fTier, "seed": *fSeed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         merged.Evaluations,
			"distinct_nontrivial": len(distinct),
			"rule":                p.rule,
			"samples":             merged.Samples,
			"classes":             merged.Labels,
			"regression_cases":    merged.Corpus,
			"shards":              shards,
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if viol == nil && herr != "" {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR:", herr)
		return 2
	}
	edir := filepath.Join(*fVerif, "evidence")
	os.MkdirAll(edir, 0o755)
	if err := os.WriteFile(filepath.Join(edir, p.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if viol != nil {
		rf := replayFile{Property: p.id, Error: viol.Error, Case: viol.Case}
		rb, _ := json.MarshalIndent(rf, "", " ")
		h := sha256.Sum256(viol.Case)
		rdir := filepath.Join(*fVerif, "replays")
		os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%x.json", p.id, h[:6]))
		if err := os.WriteFile(path, append(rb, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Println(cut(viol.Error, 3000))
		fmt.Println("case:", cut(string(viol.Case), 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
		return 1
	}
	fmt.Printf("%s: held on %d cases (%d distinct non-trivial, %d regression) in %.1fs; classes %v\n",
		p.id, merged.Evaluations, len(distinct), merged.Corpus, time.Since(start).Seconds(), merged.Labels)
	return 0
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(cut)"
	}
	return s
}
