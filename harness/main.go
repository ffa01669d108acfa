package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var (
	fProp    = flag.String("prop", "", "property id")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Int64("seed", 1, "seed")
	fVerif   = flag.String("verif", "/verif", "directory of the verification")
	fReplay  = flag.String("replay", "", "replay file")
	fWorker  = flag.Int("worker", -1, "worker index (internal)")
	fWorkers = flag.Int("workers", 8, "number of workers")
	fDir     = flag.String("dir", "", "scratch dir of the worker (internal)")
	fScale   = flag.Float64("scale", 1, "scale case counts")
	fSub     = flag.String("sub", "", "restrict to one sub-check (debugging)")
	fDump    = flag.Bool("dump", false, "print the events of a document on replay")
	fList    = flag.Bool("list", false, "list properties")
	fFresh   = flag.Bool("fresh", false, "render one document (internal)")
)

const (
	exitOK        = 0
	exitViolation = 1
	exitError     = 2
	exitLimit     = 3 // worker only: a case exceeded the CPU or memory limit
)

func main() {
	testing.Init()
	flag.Parse()
	if *fFresh {
		freshMain()
	}
	if *fList {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			p := props[id]
			q, t := 0, 0
			for _, s := range p.Subs {
				q += s.Quick
				t += s.Thorough
			}
			fmt.Println(id, p.Race, q, t)
		}
		return
	}
	p, ok := props[*fProp]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *fProp)
		os.Exit(exitError)
	}
	switch {
	case *fReplay != "":
		os.Exit(runReplay(p, *fReplay))
	case *fWorker >= 0:
		runWorker(p)
	default:
		os.Exit(coordinate(p))
	}
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func hash64(bs []byte) uint64 {
	h := fnv.New64a()
	h.Write(bs)
	return h.Sum64()
}

// ---------------------------------------------------------------- worker

type workerResult struct {
	Evaluations int
	Classes     map[string]int
	Samples     []json.RawMessage
	Failure     *Replay
	Harness     string // fault of the machinery
	SubEvals    map[string]int
}

type quietTB struct {
	name   string
	failed bool
	logs   bytes.Buffer
}

type tbStop struct{}

func (q *quietTB) Helper()      {}
func (q *quietTB) Name() string { return q.name }
func (q *quietTB) Logf(format string, args ...any) {
	if q.logs.Len() < 1<<16 {
		fmt.Fprintf(&q.logs, format+"\n", args...)
	}
}
func (q *quietTB) Log(args ...any)                   { q.Logf("%s", fmt.Sprint(args...)) }
func (q *quietTB) Skipf(format string, args ...any)  { panic(tbStop{}) }
func (q *quietTB) Skip(args ...any)                  { panic(tbStop{}) }
func (q *quietTB) SkipNow()                          { panic(tbStop{}) }
func (q *quietTB) Errorf(format string, args ...any) { q.Logf(format, args...); q.failed = true }
func (q *quietTB) Error(args ...any)                 { q.Log(args...); q.failed = true }
func (q *quietTB) Fatalf(format string, args ...any) {
	q.Logf(format, args...)
	q.failed = true
	panic(tbStop{})
}
func (q *quietTB) Fatal(args ...any) { q.Log(args...); q.failed = true; panic(tbStop{}) }
func (q *quietTB) FailNow()          { q.failed = true; panic(tbStop{}) }
func (q *quietTB) Fail()             { q.failed = true }
func (q *quietTB) Failed() bool      { return q.failed }

var caseSeq int64 // increases with every case

type curCase struct {
	mu   sync.Mutex
	sub  string
	data []byte
	cpu0 time.Duration
	on   bool
}

var current curCase

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	caseCPULimit  = 90 * time.Second
	caseHeapLimit = 2600 << 20
)

func watchdog(dir string) {
	for {
		time.Sleep(300 * time.Millisecond)
		current.mu.Lock()
		on, cpu0 := current.on, current.cpu0
		current.mu.Unlock()
		if !on {
			continue
		}
		var why string
		if used := cpuTime() - cpu0; used > caseCPULimit {
			why = fmt.Sprintf("no end after %v of CPU time", caseCPULimit)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > caseHeapLimit {
			why = fmt.Sprintf("more than %d MB of memory in use", caseHeapLimit>>20)
		}
		if why != "" {
			os.WriteFile(filepath.Join(dir, "limit.txt"), []byte(why), 0o644)
			os.Exit(exitLimit)
		}
	}
}

func beginCase(dir, subName string, data []byte) {
	bs, _ := json.Marshal(Replay{Property: *fProp, Sub: subName, Case: data})
	os.WriteFile(filepath.Join(dir, "current.json"), bs, 0o644)
	atomic.AddInt64(&caseSeq, 1)
	current.mu.Lock()
	current.sub, current.data, current.cpu0, current.on = subName, data, cpuTime(), true
	current.mu.Unlock()
}

func endCase() {
	current.mu.Lock()
	current.on = false
	current.mu.Unlock()
}

func share(total, worker, workers int) int {
	n := total / workers
	if worker < total%workers {
		n++
	}
	return n
}

func runWorker(p *Prop) {
	debug.SetMaxStack(256 << 20)
	dir := *fDir
	cwd := filepath.Join(dir, "cwd")
	if err := os.MkdirAll(cwd, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitError)
	}
	os.Chdir(cwd)
	scratchRoot = filepath.Join(dir, "scratch")
	os.MkdirAll(scratchRoot, 0o755)
	go watchdog(dir)

	res := workerResult{Classes: map[string]int{}, SubEvals: map[string]int{}}
	seen := map[uint64]bool{}
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "15s")
	if *fTier == "thorough" {
		flag.Set("rapid.shrinktime", "40s")
	}

	finish := func() {
		var hb bytes.Buffer
		for h := range seen {
			binary.Write(&hb, binary.LittleEndian, h)
		}
		os.WriteFile(filepath.Join(dir, "hashes"), hb.Bytes(), 0o644)
		bs, err := json.Marshal(res)
		if err != nil {
			fmt.Fprintln(os.Stderr, "marshal result:", err)
			os.Exit(exitError)
		}
		os.WriteFile(filepath.Join(dir, "result.json"), bs, 0o644)
	}

	one := func(s *Sub, c any) error {
		data := mustJSON(c)
		beginCase(dir, s.Name, data)
		st := &Stats{Classes: res.Classes}
		err := evaluate(s, c, st)
		endCase()
		res.Evaluations += 1 + st.extra
		res.SubEvals[s.Name]++
		if st.nontrivial {
			h := hash64(append([]byte(s.Name), data...))
			if !seen[h] {
				seen[h] = true
				if len(res.Samples) < 3 && len(data) < 4000 && len(seen)%7 == 1 {
					sm, _ := json.Marshal(map[string]any{"sub": s.Name, "case": json.RawMessage(data)})
					res.Samples = append(res.Samples, sm)
				}
			}
		}
		return err
	}

	defer func() {
		if r := recover(); r != nil {
			res.Harness = fmt.Sprintf("%v\n%s", r, debug.Stack())
			finish()
			os.Exit(exitError)
		}
	}()

	for _, s := range p.Subs {
		if *fSub != "" && s.Name != *fSub {
			continue
		}
		// fixed cases first
		if *fWorker == 0 {
			files, _ := filepath.Glob(filepath.Join(*fVerif, "regress", p.ID, s.Name+"-*.json"))
			sort.Strings(files)
			for _, f := range files {
				c, rp, err := loadReplay(p, f)
				if err != nil {
					harnessFail("regression case %s: %v", f, err)
				}
				if err := one(s, c); err != nil {
					rp.Error = err.Error()
					rp.Seed = *fSeed
					res.Failure = rp
					finish()
					os.Exit(exitOK)
				}
			}
		}
		total := s.Quick
		if *fTier == "thorough" {
			total = s.Thorough
		}
		n := share(int(float64(total)**fScale), *fWorker, *fWorkers)
		if n == 0 {
			continue
		}
		seed := splitmix(uint64(*fSeed)*1000003 + hash64([]byte(p.ID+"/"+s.Name))*31 + uint64(*fWorker))
		if seed == 0 {
			seed = 1
		}
		flag.Set("rapid.checks", strconv.Itoa(n))
		flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
		var last *Replay
		var harness any
		tb := &quietTB{name: p.ID + "/" + s.Name}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(tbStop); !ok {
						panic(r)
					}
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				if harness != nil {
					return
				}
				c := s.Gen(t)
				var err error
				func() {
					defer func() {
						if r := recover(); r != nil {
							harness = r
						}
					}()
					err = one(s, c)
				}()
				if err != nil {
					last = &Replay{Property: p.ID, Sub: s.Name, Seed: *fSeed, Error: err.Error(), Case: mustJSON(c)}
					t.Fatalf("violation")
				}
			})
		}()
		if harness != nil {
			panic(harness)
		}
		if last != nil {
			res.Failure = last
			break
		}
		if tb.failed {
			harnessFail("generator of %s/%s failed: %s", p.ID, s.Name, tb.logs.String())
		}
	}
	finish()
	os.Exit(exitOK)
}

func loadReplay(p *Prop, file string) (any, *Replay, error) {
	bs, err := os.ReadFile(file)
	if err != nil {
		return nil, nil, err
	}
	var rp Replay
	if err := json.Unmarshal(bs, &rp); err != nil {
		return nil, nil, err
	}
	for _, s := range p.Subs {
		if s.Name == rp.Sub {
			c := s.New()
			if err := json.Unmarshal(rp.Case, c); err != nil {
				return nil, nil, err
			}
			return c, &rp, nil
		}
	}
	return nil, nil, fmt.Errorf("no sub-check %q in %s", rp.Sub, p.ID)
}

func runReplay(p *Prop, file string) int {
	file, _ = filepath.Abs(file)
	c, rp, err := loadReplay(p, file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "replay:", err)
		return exitError
	}
	tmp, err := os.MkdirTemp("", "xcheck-replay-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	defer os.RemoveAll(tmp)
	scratchRoot = filepath.Join(tmp, "scratch")
	os.MkdirAll(scratchRoot, 0o755)
	os.MkdirAll(filepath.Join(tmp, "cwd"), 0o755)
	os.Chdir(filepath.Join(tmp, "cwd"))
	go watchdog(tmp)
	beginCase(tmp, rp.Sub, rp.Case)
	if d, ok := c.(*Doc); ok && *fDump {
		if run, _, err := d.observe(); err == nil {
			for _, e := range run.Evs {
				fmt.Fprintf(os.Stderr, "%c %v\n", e.Zone, e)
			}
		}
	}
	for _, s := range p.Subs {
		if s.Name == rp.Sub {
			if err := evaluate(s, c, &Stats{Classes: map[string]int{}}); err != nil {
				fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", err, p.ID, file)
				return exitViolation
			}
		}
	}
	fmt.Println("held on", file)
	return exitOK
}

// ---------------------------------------------------------------- coordinator

func coordinate(p *Prop) int {
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "xcheck-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	defer os.RemoveAll(tmp)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	workers := *fWorkers
	type wstate struct {
		err    error
		stderr []byte
	}
	ws := make([]wstate, workers)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			dir := filepath.Join(tmp, fmt.Sprintf("w%d", i))
			os.MkdirAll(dir, 0o755)
			cmd := exec.Command(self, "-prop", p.ID, "-tier", *fTier, "-seed", strconv.FormatInt(*fSeed, 10),
				"-worker", strconv.Itoa(i), "-workers", strconv.Itoa(workers), "-dir", dir, "-verif", *fVerif,
				"-scale", fmt.Sprint(*fScale), "-sub", *fSub)
			cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=3500MiB", "GOMAXPROCS=2")
			if p.Race {
				cmd.Env = append(cmd.Env, "GOMAXPROCS=4")
			}
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			var eb tailBuffer
			cmd.Stderr = &eb
			cmd.Stdout = nil
			runtime.LockOSThread()
			err := cmd.Run()
			ws[i] = wstate{err: err, stderr: eb.Bytes()}
		}(i)
	}
	wg.Wait()

	total := workerResult{Classes: map[string]int{}, SubEvals: map[string]int{}}
	distinct := map[uint64]bool{}
	var failures []*Replay
	var problems []string
	for i := range ws {
		dir := filepath.Join(tmp, fmt.Sprintf("w%d", i))
		var res workerResult
		haveRes := false
		if bs, err := os.ReadFile(filepath.Join(dir, "result.json")); err == nil {
			if json.Unmarshal(bs, &res) == nil {
				haveRes = true
			}
		}
		if ws[i].err != nil {
			code := -1
			if ee, ok := ws[i].err.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
			stderr := string(ws[i].stderr)
			var cur *Replay
			if bs, err := os.ReadFile(filepath.Join(dir, "current.json")); err == nil {
				var rp Replay
				if json.Unmarshal(bs, &rp) == nil {
					cur = &rp
				}
			}
			switch {
			case haveRes && res.Harness != "":
				problems = append(problems, fmt.Sprintf("worker %d: %s", i, res.Harness))
			case code == exitLimit && cur != nil:
				why, _ := os.ReadFile(filepath.Join(dir, "limit.txt"))
				cur.Error = "does not terminate within its limits: " + string(why)
				cur.Seed = *fSeed
				failures = append(failures, cur)
			case code == 66 && cur != nil && strings.Contains(stderr, "DATA RACE"):
				cur.Error = "data race: " + clip(stderr[strings.Index(stderr, "WARNING: DATA RACE"):], 3000)
				cur.Seed = *fSeed
				failures = append(failures, cur)
			case cur != nil && (strings.Contains(stderr, "goroutine stack exceeds") || strings.Contains(stderr, "fatal error: concurrent map") ||
				strings.Contains(stderr, "fatal error: all goroutines are asleep") ||
				(strings.Contains(stderr, "panic: ") && strings.Contains(stderr, "mazzegi/xpdf"))):
				cur.Error = "crash: " + clip(stderr, 1500)
				cur.Seed = *fSeed
				failures = append(failures, cur)
			default:
				problems = append(problems, fmt.Sprintf("worker %d lost (%v): %s", i, ws[i].err, clip(stderr, 1500)))
			}
		} else if !haveRes {
			problems = append(problems, fmt.Sprintf("worker %d left no result", i))
		}
		if haveRes {
			total.Evaluations += res.Evaluations
			for k, v := range res.Classes {
				total.Classes[k] += v
			}
			for k, v := range res.SubEvals {
				total.SubEvals[k] += v
			}
			if len(total.Samples) < 6 {
				total.Samples = append(total.Samples, res.Samples...)
			}
			if res.Failure != nil {
				failures = append(failures, res.Failure)
			}
			if bs, err := os.ReadFile(filepath.Join(dir, "hashes")); err == nil {
				for len(bs) >= 8 {
					distinct[binary.LittleEndian.Uint64(bs)] = true
					bs = bs[8:]
				}
			}
		}
	}
	if len(total.Samples) > 6 {
		total.Samples = total.Samples[:6]
	}

	known := loadKnown(filepath.Join(*fVerif, "known_findings.txt"), p.ID)
	if len(failures) == 0 {
		for _, k := range known {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
		}
	}

	ev := map[string]any{
		"property": p.ID,
		"tier":     *fTier,
		"seed":     *fSeed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         total.Evaluations,
			"distinct_nontrivial": len(distinct),
			"rule":                p.Rule,
			"samples":             nonNil(total.Samples),
			"classes":             total.Classes,
			"evaluations_per_sub": total.SubEvals,
		},
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(failures),
	}
	if len(p.Assumptions) > 0 {
		ev["assumptions"] = p.Assumptions
	}
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	bs, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*fVerif, "evidence", p.ID+".json"), append(bs, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return exitError
	}

	if len(failures) > 0 {
		sort.SliceStable(failures, func(i, j int) bool { return len(failures[i].Case) < len(failures[j].Case) })
		f := failures[0]
		dir := filepath.Join(*fVerif, "replays")
		os.MkdirAll(dir, 0o755)
		name := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", p.ID, f.Sub, hash64(f.Case)))
		bs, _ := json.MarshalIndent(f, "", " ")
		os.WriteFile(name, append(bs, '\n'), 0o644)
		fmt.Printf("%s/%s: %s\n", p.ID, f.Sub, clip(f.Error, 4000))
		fmt.Printf("case: %s\n", clip(string(f.Case), 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, name)
		return exitViolation
	}
	if len(problems) > 0 {
		for _, s := range problems {
			fmt.Fprintln(os.Stderr, "ERROR:", s)
		}
		return exitError
	}
	fmt.Printf("%s held: %d evaluations, %d distinct non-trivial cases, %.1fs\n", p.ID, total.Evaluations, len(distinct), time.Since(t0).Seconds())
	var cl []string
	for k, v := range total.Classes {
		cl = append(cl, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(cl)
	fmt.Println("classes:", strings.Join(cl, " "))
	return exitOK
}

func nonNil(s []json.RawMessage) []json.RawMessage {
	if s == nil {
		return []json.RawMessage{}
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

func loadKnown(file, id string) []string {
	bs, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(bs), "\n") {
		if rest, ok := strings.CutPrefix(l, "known: property="+id+" "); ok {
			out = append(out, rest)
		}
	}
	return out
}

// tailBuffer keeps the first and the last part of what is written
type tailBuffer struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

var _ io.Writer = (*tailBuffer)(nil)

func (b *tailBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	n := len(p)
	if room := 16384 - len(b.head); room > 0 {
		k := min(room, len(p))
		b.head = append(b.head, p[:k]...)
		p = p[k:]
	}
	b.tail = append(b.tail, p...)
	if len(b.tail) > 16384 {
		b.tail = b.tail[len(b.tail)-16384:]
	}
	return n, nil
}

func (b *tailBuffer) Bytes() []byte {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append(append([]byte{}, b.head...), b.tail...)
}

var scratchRoot string

// scratch makes a fresh directory for a case; the returned func removes it.
func scratch() (string, func()) {
	d, err := os.MkdirTemp(scratchRoot, "c")
	if err != nil {
		harnessFail("scratch: %v", err)
	}
	return d, func() { os.RemoveAll(d) }
}
