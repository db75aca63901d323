// vh decides the properties in /verif/properties.jsonl by generated-input search.
//
//	vh check ID        run one check: shards, evidence, verdict
//	vh shard ...       (internal) one rapid search, driving one worker process
//	vh worker          (internal) runs cases against the code under test
//	vh replay FILE     run one saved case
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const (
	nShards      = 8
	cpuLimit     = 20 * time.Second  // CPU time of one case: beyond it, the code hangs
	wallLimit    = 400 * time.Second // wall time of one case: beyond it, nothing can be said
	memLimit     = 2 << 30           // resident memory of a worker: beyond it, the code runs away
	maxFailCases = 1
)

// Result is the verdict on one case.
type Result struct {
	Fail       string   `json:"fail,omitempty"`    // why the property does not hold ("" if it does)
	Discard    bool     `json:"discard,omitempty"` // outside of the domain of the property
	NonTrivial bool     `json:"nontrivial,omitempty"`
	Classes    []string `json:"classes,omitempty"`
	Sample     string   `json:"sample,omitempty"`
	Err        string   `json:"err,omitempty"` // the harness could not do its work
}

// Check decides one property.
type Check struct {
	ID       string
	Rule     string // how cases are made, and what makes one non-trivial
	Quick    int    // number of cases
	Thorough int
	Assume   []string
	Gen      func(t *rapid.T) any
	Run      func(c *Ctx, raw json.RawMessage) Result
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func main() {
	debug.SetMaxStack(64 << 20)
	if len(os.Args) < 2 {
		fatal("usage: vh check ID | replay FILE")
	}
	switch os.Args[1] {
	case "check":
		os.Exit(parent(os.Args[2]))
	case "shard":
		shard(os.Args[2:])
	case "worker":
		worker()
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	default:
		fatal("unknown subcommand " + os.Args[1])
	}
}

func fatal(s string) {
	fmt.Fprintln(os.Stderr, "vh: "+s)
	os.Exit(3)
}

// ---------------------------------------------------------------- worker

type request struct {
	ID   string          `json:"id"`
	Case json.RawMessage `json:"case"`
}

// worker reads cases from descriptor 3 and writes verdicts to descriptor 4.
// Its standard output and error are files, which the cases look at.
func worker() {
	in := bufio.NewReaderSize(os.NewFile(3, "in"), 1<<20)
	out := os.NewFile(4, "out")
	c := newCtx(os.Getenv("VH_SCRATCH"))
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var r request
		var res Result
		if err := json.Unmarshal(line, &r); err != nil {
			res.Err = err.Error()
		} else {
			res = runCase(c, r.ID, r.Case)
		}
		b, _ := json.Marshal(res)
		out.Write(append(b, '\n'))
	}
}

func runCase(c *Ctx, id string, raw json.RawMessage) (res Result) {
	defer func() {
		if p := recover(); p != nil {
			if h, ok := p.(harnessError); ok {
				res = Result{Err: string(h)}
				return
			}
			st := strings.Split(string(debug.Stack()), "\n")
			if len(st) > 40 {
				st = st[:40]
			}
			res = Result{Fail: fmt.Sprintf("panic: %v\n%s", p, strings.Join(st, "\n"))}
		}
	}()
	ch := checks[id]
	if ch == nil {
		return Result{Err: "unknown check " + id}
	}
	c.reset()
	c.setZone(raw)
	return ch.Run(c, raw)
}

var zones = []string{"UTC", "America/New_York", "Asia/Kolkata", "Pacific/Auckland", "UTC"}

// setZone sets the local time zone, of this process and of the programs it runs, and whether
// the files are named with their whole path or from the working directory, none of which must make any difference.
func (c *Ctx) setZone(raw json.RawMessage) {
	h := fnv.New32a()
	var b bytes.Buffer
	if json.Compact(&b, raw) == nil {
		h.Write(b.Bytes())
	}
	zone := zones[h.Sum32()/7%uint32(len(zones))]
	loc, err := time.LoadLocation(zone)
	if err != nil {
		zone, loc = "UTC", time.UTC
	}
	time.Local = loc
	os.Setenv("TZ", zone)
	must(os.Chdir(dirOf(c.whole)))
	c.root = c.whole
	if h.Sum32()/37%6 == 0 {
		c.root = filepath.Base(c.whole)
	}
}

// harnessError is panicked with when the harness itself fails (no disk space, cannot execute...).
type harnessError string

// ---------------------------------------------------------------- driving a worker

type workerProc struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	results chan []byte
	dead    chan struct{}
	scratch string
	errFile string
	werr    error
}

func startWorker(dir string) (*workerProc, error) {
	w := &workerProc{scratch: filepath.Join(dir, "w"), errFile: filepath.Join(dir, "stderr")}
	if err := os.MkdirAll(w.scratch, 0o777); err != nil {
		return nil, err
	}
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	open := func(name string) (*os.File, error) {
		return os.OpenFile(filepath.Join(dir, name), os.O_CREATE|os.O_TRUNC|os.O_RDWR|os.O_APPEND, 0o666)
	}
	fo, err := open("stdout")
	if err != nil {
		return nil, err
	}
	defer fo.Close()
	fe, err := open("stderr")
	if err != nil {
		return nil, err
	}
	defer fe.Close()
	r3, w3, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	r4, w4, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	w.cmd = exec.Command(exe, "worker")
	w.cmd.Stdout, w.cmd.Stderr = fo, fe
	w.cmd.ExtraFiles = []*os.File{r3, w4}
	w.cmd.Env = append(os.Environ(), "VH_SCRATCH="+w.scratch, "GOTRACEBACK=single")
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	r3.Close()
	w4.Close()
	w.in = w3
	w.results = make(chan []byte, 1)
	w.dead = make(chan struct{})
	go func() {
		br := bufio.NewReaderSize(r4, 1<<20)
		for {
			line, err := br.ReadBytes('\n')
			if err != nil {
				break
			}
			w.results <- line
		}
		w.werr = w.cmd.Wait()
		r4.Close()
		close(w.dead)
	}()
	return w, nil
}

func (w *workerProc) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	<-w.dead
}

// usage returns the CPU time spent by the worker and its children, and its resident memory.
func (w *workerProc) usage() (time.Duration, int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", w.cmd.Process.Pid))
	if err != nil {
		return 0, 0
	}
	i := bytes.LastIndexByte(b, ')')
	if i < 0 {
		return 0, 0
	}
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 22 {
		return 0, 0
	}
	var ticks int64
	for _, k := range []int{11, 12, 13, 14} {
		n, _ := strconv.ParseInt(f[k], 10, 64)
		ticks += n
	}
	pages, _ := strconv.ParseInt(f[21], 10, 64)
	return time.Duration(ticks) * 10 * time.Millisecond, pages * 4096
}

// run runs one case. It returns an error if nothing can be said about the case.
func (w *workerProc) run(id string, raw json.RawMessage) (Result, bool, error) {
	b, err := json.Marshal(request{id, raw})
	if err != nil {
		return Result{}, true, err
	}
	cpu0, _ := w.usage()
	start := time.Now()
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		return Result{}, false, fmt.Errorf("worker: %v", err)
	}
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case line := <-w.results:
			return decodeResult(line)
		case <-w.dead:
			select {
			case line := <-w.results:
				// it answered, and died later
				return decodeResult(line)
			default:
			}
			var ee *exec.ExitError
			tail := w.stderrTail()
			if errors.As(w.werr, &ee) {
				ws := ee.Sys().(syscall.WaitStatus)
				if ws.Signaled() && ws.Signal() == syscall.SIGKILL {
					return Result{}, false, errors.New("the worker was killed")
				}
				if strings.Contains(tail, "out of memory") || strings.Contains(tail, "failed to create new OS thread") {
					return Result{}, false, errors.New("no memory: " + tail)
				}
				return Result{Fail: "the program ended: " + ee.String() + "\n" + tail}, false, nil
			}
			return Result{Fail: "the program ended with status 0\n" + tail}, false, nil
		case <-tick.C:
			cpu, rss := w.usage()
			if cpu-cpu0 > cpuLimit {
				w.stop()
				return Result{Fail: fmt.Sprintf("hangs: more than %v of CPU time in one case", cpuLimit)}, false, nil
			}
			if rss > memLimit {
				w.stop()
				return Result{Fail: fmt.Sprintf("memory: more than %d bytes in one case", int64(memLimit))}, false, nil
			}
			if time.Since(start) > wallLimit {
				w.stop()
				return Result{}, false, errors.New("no answer in time")
			}
		}
	}
}

func decodeResult(line []byte) (Result, bool, error) {
	var res Result
	if err := json.Unmarshal(line, &res); err != nil {
		return Result{}, true, err
	}
	if res.Err != "" {
		return res, true, errors.New(res.Err)
	}
	return res, true, nil
}

func (w *workerProc) stderrTail() string {
	b, _ := os.ReadFile(w.errFile)
	if len(b) > 3000 {
		b = append(append(append([]byte{}, b[:1500]...), []byte("\n[...]\n")...), b[len(b)-1500:]...)
	}
	return string(b)
}

// ---------------------------------------------------------------- shard

type shardOut struct {
	Evaluations int             `json:"evaluations"`
	Discarded   int             `json:"discarded"`
	Classes     map[string]int  `json:"classes"`
	Hashes      []uint64        `json:"-"`
	Samples     []string        `json:"samples"`
	FailCase    json.RawMessage `json:"fail_case,omitempty"`
	FailMsg     string          `json:"fail_msg,omitempty"`
	Err         string          `json:"err,omitempty"`
}

type fakeTB struct {
	failed bool
	errs   []string
	abort  string
}

type stopShard struct{}

func (f *fakeTB) Helper()              {}
func (f *fakeTB) Name() string         { return "check" }
func (f *fakeTB) Logf(string, ...any)  {}
func (f *fakeTB) Log(...any)           {}
func (f *fakeTB) Skipf(string, ...any) {}
func (f *fakeTB) Skip(...any)          {}
func (f *fakeTB) SkipNow()             {}
func (f *fakeTB) Errorf(s string, a ...any) {
	f.failed = true
	f.errs = append(f.errs, fmt.Sprintf(s, a...))
}
func (f *fakeTB) Error(a ...any)            { f.failed = true; f.errs = append(f.errs, fmt.Sprint(a...)) }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Errorf(s, a...); panic(stopShard{}) }
func (f *fakeTB) Fatal(a ...any)            { f.Error(a...); panic(stopShard{}) }
func (f *fakeTB) FailNow()                  { f.failed = true; panic(stopShard{}) }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

func shard(args []string) {
	id, seed, n, dir := args[0], args[1], args[2], args[3]
	ch := checks[id]
	out := shardOut{Classes: map[string]int{}}
	finish := func() {
		h := new(bytes.Buffer)
		binary.Write(h, binary.LittleEndian, out.Hashes)
		os.WriteFile(filepath.Join(dir, "hashes"), h.Bytes(), 0o666)
		b, _ := json.Marshal(out)
		os.WriteFile(filepath.Join(dir, "out.json"), b, 0o666)
		os.Exit(0)
	}
	testing.Init()
	shrink := os.Getenv("VH_SHRINK") // used while developing
	if shrink == "" {
		shrink = "25s"
	}
	flag.CommandLine.Parse([]string{"-rapid.seed=" + seed, "-rapid.checks=" + n, "-rapid.nofailfile", "-rapid.shrinktime=" + shrink})
	seen := map[uint64]bool{}
	var w *workerProc
	nw := 0
	failing := false
	tb := &fakeTB{}
	prop := func(t *rapid.T) {
		v := ch.Gen(t)
		raw, err := json.Marshal(v)
		if err != nil {
			out.Err = "encoding a case: " + err.Error()
			finish()
		}
		if w == nil {
			nw++
			w, err = startWorker(filepath.Join(dir, strconv.Itoa(nw)))
			if err != nil {
				out.Err = "starting a worker: " + err.Error()
				finish()
			}
		}
		res, alive, err := w.run(id, raw)
		if !alive {
			w = nil
			os.RemoveAll(filepath.Join(dir, strconv.Itoa(nw)))
		}
		if err != nil {
			out.Err = err.Error() + "\ncase: " + string(raw)
			finish()
		}
		if !failing {
			out.Evaluations++
			if res.Discard {
				out.Discarded++
			}
			for _, c := range res.Classes {
				out.Classes[c]++
			}
			if res.NonTrivial && !res.Discard {
				h := fnv.New64a()
				h.Write(raw)
				s := h.Sum64()
				if !seen[s] {
					seen[s] = true
					out.Hashes = append(out.Hashes, s)
					k := len(out.Hashes)
					if k == 3 || k == 30 || k == 120 {
						s := res.Sample
						if s == "" {
							s = string(raw)
						}
						if len(s) > 1500 {
							s = s[:1500] + " [...]"
						}
						out.Samples = append(out.Samples, s)
					}
				}
			}
		}
		if res.Fail != "" {
			failing = true
			out.FailCase = raw
			out.FailMsg = res.Fail
			t.Fatalf("property violated")
		}
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(stopShard); !ok {
					out.Err = fmt.Sprintf("harness: %v\n%s", p, debug.Stack())
				}
			}
		}()
		rapid.Check(tb, prop)
	}()
	if tb.failed && out.FailCase == nil && out.Err == "" {
		out.Err = "rapid: " + strings.Join(tb.errs, "; ")
	}
	if w != nil {
		w.stop()
	}
	finish()
}

// ---------------------------------------------------------------- parent

func parent(id string) int {
	ch := checks[id]
	if ch == nil {
		fatal("no check for " + id)
	}
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	total := ch.Quick
	if tier == "thorough" {
		total = ch.Thorough
	}
	if s := os.Getenv("VH_CASES"); s != "" {
		total, _ = strconv.Atoi(s)
	}
	if s, err := strconv.Atoi(os.Getenv("VH_PERCENT")); err == nil {
		total = total*s/100 + 1
	}
	base := os.Getenv("VH_TMP")
	if base == "" {
		fatal("VH_TMP is not set: use run.sh")
	}
	exe, _ := os.Executable()
	outs := make([]shardOut, nShards)
	var broken atomic.Int32
	done := make(chan int)
	for i := 0; i < nShards; i++ {
		go func(i int) {
			defer func() { done <- i }()
			dir := filepath.Join(base, fmt.Sprintf("s%d", i))
			os.MkdirAll(dir, 0o777)
			s := uint64(seed)*1_000_003 + uint64(i)*7919 + 1
			if s == 0 {
				s = 12345
			}
			cmd := exec.Command(exe, "shard", id, fmt.Sprint(s), fmt.Sprint((total+nShards-1)/nShards), dir)
			cmd.Stderr = os.Stderr
			cmd.Stdout = os.Stderr
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			err := cmd.Run()
			b, err2 := os.ReadFile(filepath.Join(dir, "out.json"))
			if err != nil || err2 != nil {
				outs[i].Err = fmt.Sprintf("shard %d: %v %v", i, err, err2)
				broken.Add(1)
				return
			}
			if err := json.Unmarshal(b, &outs[i]); err != nil {
				outs[i].Err = err.Error()
			}
			h, _ := os.ReadFile(filepath.Join(dir, "hashes"))
			for len(h) >= 8 {
				outs[i].Hashes = append(outs[i].Hashes, binary.LittleEndian.Uint64(h))
				h = h[8:]
			}
		}(i)
	}
	for i := 0; i < nShards; i++ {
		<-done
	}
	distinct := map[uint64]bool{}
	classes := map[string]int{}
	evals, discarded := 0, 0
	samples := []any{}
	var fail *shardOut
	var problems []string
	for i := range outs {
		o := &outs[i]
		evals += o.Evaluations
		discarded += o.Discarded
		for k, v := range o.Classes {
			classes[k] += v
		}
		for _, h := range o.Hashes {
			distinct[h] = true
		}
		if len(samples) < 4 && len(o.Samples) > 0 {
			samples = append(samples, o.Samples[i%len(o.Samples)])
		}
		if o.FailCase != nil && (fail == nil || len(o.FailCase) < len(fail.FailCase)) {
			fail = o
		}
		if o.Err != "" {
			problems = append(problems, fmt.Sprintf("shard %d: %s", i, o.Err))
		}
	}
	violations := 0
	replayFile := ""
	if fail != nil {
		violations = 1
		dir := os.Getenv("VH_EVIDENCE")
		replayFile = filepath.Join(dir, "replay", fmt.Sprintf("%s-%s-%d.json", id, tier, seed))
		os.MkdirAll(filepath.Dir(replayFile), 0o777)
		b, _ := json.MarshalIndent(map[string]any{"property": id, "case": fail.FailCase, "message": fail.FailMsg}, "", " ")
		if err := os.WriteFile(replayFile, append(b, '\n'), 0o666); err != nil {
			fatal(err.Error())
		}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": ch.Rule,
			"samples": samples, "classes": classes, "discarded": discarded, "shards": nShards,
		},
		"wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	if len(ch.Assume) > 0 {
		ev["assumptions"] = ch.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	file := filepath.Join(os.Getenv("VH_EVIDENCE"), id+".json")
	os.MkdirAll(filepath.Dir(file), 0o777)
	if err := os.WriteFile(file, append(b, '\n'), 0o666); err != nil {
		fatal(err.Error())
	}
	if fail != nil {
		msg := fail.FailMsg
		if len(msg) > 4000 {
			msg = msg[:4000] + " [...]"
		}
		fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", msg, id, replayFile)
		return 1
	}
	if len(problems) > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(problems, "\n"))
		return 3
	}
	if len(distinct) < total/50 || len(distinct) < 2 {
		fmt.Fprintf(os.Stderr, "vh: only %d non-trivial cases\n", len(distinct))
		return 3
	}
	for _, k := range knownFindings(id) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	fmt.Printf("%s: held on %d cases, %d distinct non-trivial (%.1fs)\n", id, evals, len(distinct), time.Since(start).Seconds())
	return 0
}

// knownFindings returns the "known:" entries of known-findings.txt for a property, to be printed on
// every run. There are none at the moment (every defect found was repaired), so no check tolerates
// anything: a new entry also needs the check to recognise exactly its case.
func knownFindings(id string) []string {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VH_HOME"), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "known: property="+id+" "); ok {
			out = append(out, rest)
		}
	}
	return out
}

// ---------------------------------------------------------------- replay

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal(err.Error())
	}
	var r struct {
		Property string          `json:"property"`
		Case     json.RawMessage `json:"case"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fatal(err.Error())
	}
	var compact bytes.Buffer
	json.Compact(&compact, r.Case)
	w, err := startWorker(filepath.Join(os.Getenv("VH_TMP"), "replay"))
	if err != nil {
		fatal(err.Error())
	}
	res, alive, err := w.run(r.Property, compact.Bytes())
	if alive {
		w.stop()
	}
	if err != nil {
		fatal(err.Error())
	}
	if res.Sample != "" {
		fmt.Println(res.Sample)
	}
	if res.Fail != "" {
		fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", res.Fail, r.Property, file)
		return 1
	}
	fmt.Println("the property holds on this case")
	return 0
}
