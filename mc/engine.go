// Command mc is the bounded exhaustive explorer for yunion.io/x/jsonutils.
//
// Every property registers suites. A suite is a finite, indexable space of
// cases; the driver forks worker processes which walk disjoint slices of it,
// executing the real code on every case and comparing with a reference model.
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"yunion.io/x/log"
)

// Suite is a finite space of cases 0..N-1.
type Suite struct {
	Name  string
	Bound string // what is enumerated, in words
	N     int64
	Run   func(t *T, i int64)
}

// Check is the decision procedure of one property.
type Check struct {
	ID     string
	Suites func(quick bool) []Suite
	Assume []string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Failure is one case in which the property did not hold.
type Failure struct {
	Suite string `json:"suite"`
	Index int64  `json:"index"`
	Msg   string `json:"msg"`
}

// T collects what one worker saw.
type T struct {
	quick   bool
	suite   string
	index   int64
	fails   []Failure
	caseF   int
	states  map[uint64]struct{}
	capped  bool
	trans   int64
	evals   int64
	outs    map[string]int64
	samples map[string][]string
	stop    bool
	known   []KnownFinding
	knownN  map[int]int64
	nfail   int64
	slot    slot

	deadline time.Time
	expired  bool
}

const maxStates = 3 << 20

func h64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// State records a distinct state (document, text, value) of the explored space.
func (t *T) State(s string) {
	if len(t.states) >= maxStates {
		t.capped = true
		return
	}
	t.states[h64(s)] = struct{}{}
}

// Tick tells the driver that a long case is still going on. It returns false
// when the time is up; the case is given up then and its suite not complete.
func (t *T) Tick() bool {
	if t.slot != nil {
		t.slot.tick()
	}
	if time.Now().After(t.deadline) {
		t.expired = true
	}
	return !t.expired
}

// Op counts calls of the code under test.
func (t *T) Op(n int) { t.trans += int64(n) }

// Outcome counts the distinct kinds of results seen (against vacuity).
func (t *T) Outcome(s string) {
	if len(t.outs) < 200 || t.outs[s] > 0 {
		t.outs[s]++
	}
}

// Sample keeps up to three written-out cases per suite.
func (t *T) Sample(f func() string) {
	if len(t.samples[t.suite]) < 3 {
		s := f()
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		t.samples[t.suite] = append(t.samples[t.suite], s)
	}
}

// Failf records that the property failed in the current case.
func (t *T) Failf(format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 2000 {
		msg = msg[:2000] + "..."
	}
	for k := range t.known {
		if t.known[k].matches(t.suite, msg) {
			t.knownN[k]++
			return
		}
	}
	t.caseF++
	t.nfail++
	if t.caseF > 3 {
		return
	}
	t.fails = append(t.fails, Failure{t.suite, t.index, msg})
	if len(t.fails) >= 60 {
		t.stop = true
	}
}

// Try runs f; a panic becomes a failure described by desc.
func (t *T) Try(desc func() string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			t.Failf("panic in %s: %v at %s", desc(), r, panicSite())
		}
	}()
	f()
	return true
}

func panicSite() string {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "/repo/"); i >= 0 {
			if j := strings.LastIndex(l, " +0x"); j > 0 {
				l = l[:j]
			}
			return l[i+1:]
		}
	}
	return "?"
}

// KnownFinding identifies one recorded genuine defect by suite and by text that
// must all occur in the failure message (the failing input is part of it).
type KnownFinding struct {
	Property string   `json:"property"`
	Suite    string   `json:"suite"`
	Contains []string `json:"contains"`
	What     string   `json:"what"`
}

func (k *KnownFinding) matches(suite, msg string) bool {
	if k.Suite != suite || len(k.Contains) == 0 {
		return false
	}
	for _, c := range k.Contains {
		if !strings.Contains(msg, c) {
			return false
		}
	}
	return true
}

type knownFile struct {
	Known []KnownFinding `json:"known"`
	Fixed []string       `json:"fixed"`
}

func loadKnown(id string) []KnownFinding {
	var f knownFile
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &f); err != nil {
			fatal("known_findings.json: %v", err)
		}
	}
	var r []KnownFinding
	for _, k := range f.Known {
		if k.Property == id {
			r = append(r, k)
		}
	}
	return r
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

type workerResult struct {
	Fails    []Failure
	NFail    int64
	Trans    int64
	Evals    int64
	Cases    map[string]int64
	Outs     map[string]int64
	Samples  map[string][]string
	KnownN   map[int]int64
	Complete map[string]bool
	Capped   bool
	Secs     map[string]float64
}

// slot is the shared page in which a worker announces what it is doing.
type slot []byte

func openSlot(path string, create bool) slot {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		fatal("slot: %v", err)
	}
	defer f.Close()
	if create {
		f.Truncate(4096)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatal("mmap: %v", err)
	}
	return b
}

func (s slot) set(suite int, index int64) {
	binary.LittleEndian.PutUint64(s[0:], uint64(suite))
	binary.LittleEndian.PutUint64(s[8:], uint64(index))
	binary.LittleEndian.PutUint64(s[16:], binary.LittleEndian.Uint64(s[16:])+1)
}

func (s slot) tick() {
	binary.LittleEndian.PutUint64(s[16:], binary.LittleEndian.Uint64(s[16:])+1)
}

func (s slot) get() (int, int64, uint64) {
	return int(binary.LittleEndian.Uint64(s[0:])), int64(binary.LittleEndian.Uint64(s[8:])), binary.LittleEndian.Uint64(s[16:])
}

type workerArgs struct {
	ID        string
	Quick     bool
	Shard     int64
	Shards    int64
	FromSuite int
	FromIndex int64 // first index of FromSuite
	OnlySuite int   // -1 for all
	ToIndex   int64 // exclusive, -1 for all (only with OnlySuite)
	Deadline  int64 // unix seconds
	Out       string
	Slot      string
}

func runWorker(a workerArgs) {
	// The harness only ever needs little memory and stack; a bug that wants
	// more must fail here and not take the machine down.
	debug.SetMaxStack(256 << 20)
	workerOut = a.Out
	if raceBuild {
		// the race detector maps far more than it uses
		runtime.GOMAXPROCS(1)
	} else {
		lim := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
		runtime.GOMAXPROCS(2)
	}
	debug.SetGCPercent(400)
	log.SetLogLevelByString(log.Logger(), "fatal")
	if p := os.Getenv("VERIF_PROF"); p != "" && a.Shard == 0 {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	c := checks[a.ID]
	suites := c.Suites(a.Quick)
	sl := openSlot(a.Slot, false)
	known := loadKnown(a.ID)
	t := &T{quick: a.Quick, states: map[uint64]struct{}{}, outs: map[string]int64{}, samples: map[string][]string{}, known: known, knownN: map[int]int64{}, slot: sl, deadline: time.Unix(a.Deadline, 0)}
	res := workerResult{Cases: map[string]int64{}, Complete: map[string]bool{}, Secs: map[string]float64{}}
	deadline := time.Unix(a.Deadline, 0)
	slow, _ := time.ParseDuration(os.Getenv("VERIF_SLOW"))
	for si := a.FromSuite; si < len(suites); si++ {
		if a.OnlySuite >= 0 && si != a.OnlySuite {
			continue
		}
		s := suites[si]
		start := a.Shard
		if si == a.FromSuite && a.FromIndex > start {
			start = a.FromIndex
		}
		end := s.N
		if a.OnlySuite >= 0 && a.ToIndex >= 0 && a.ToIndex < end {
			end = a.ToIndex
		}
		t.suite = s.Name
		complete := true
		t0 := time.Now()
		for i := start; i < end; i += a.Shards {
			if t.stop {
				complete = false
				break
			}
			if t.expired || ((i/a.Shards)&63 == 0 || raceBuild) && time.Now().After(deadline) {
				complete = false
				break
			}
			sl.set(si, i)
			t.index = i
			t.caseF = 0
			t.evals++
			c0 := time.Now()
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.Failf("panic: %v at %s", r, panicSite())
					}
				}()
				s.Run(t, i)
			}()
			if t.expired {
				complete = false
				break
			}
			res.Cases[s.Name]++
			if slow > 0 && time.Since(c0) > slow {
				t.outs[fmt.Sprintf("slow %s/%d %v", s.Name, i, time.Since(c0))]++
			}
		}
		res.Complete[s.Name] = complete
		res.Secs[s.Name] += time.Since(t0).Seconds()
	}
	sl.set(1<<30, 0)
	res.Fails, res.NFail, res.Trans, res.Evals = t.fails, t.nfail, t.trans, t.evals
	res.Outs, res.Samples, res.KnownN, res.Capped = t.outs, t.samples, t.knownN, t.capped
	f, err := os.Create(a.Out + ".states")
	if err != nil {
		fatal("%v", err)
	}
	buf := make([]byte, 0, len(t.states)*8)
	for h := range t.states {
		buf = binary.LittleEndian.AppendUint64(buf, h)
	}
	f.Write(buf)
	f.Close()
	b, _ := json.Marshal(res)
	if err := os.WriteFile(a.Out, b, 0600); err != nil {
		fatal("%v", err)
	}
	pprof.StopCPUProfile()
	os.Exit(0)
}

// ---- driver ----

type proc struct {
	args   workerArgs
	cmd    *exec.Cmd
	slot   slot
	stderr string
	done   chan error
}

var selfExe string

// raceBuild is set in the build with the controlled scheduler.
var raceBuild bool

// workerOut is the result file of this worker.
var workerOut string

func spawn(tmp string, a workerArgs, tag string) *proc {
	a.Out = filepath.Join(tmp, "out."+tag)
	a.Slot = filepath.Join(tmp, "slot."+tag)
	os.Remove(a.Out)
	p := &proc{args: a, slot: openSlot(a.Slot, true), stderr: filepath.Join(tmp, "err."+tag), done: make(chan error, 1)}
	p.slot.set(a.FromSuite, a.FromIndex)
	b, _ := json.Marshal(a)
	p.cmd = exec.Command(selfExe, "-worker", string(b))
	ef, _ := os.Create(p.stderr)
	p.cmd.Stderr = ef
	p.cmd.Stdout = ef
	p.cmd.Dir = tmp
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	p.cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=0 exitcode=0 history_size=4 log_path="+filepath.Join(tmp, "race."+tag))
	runtime.LockOSThread()
	err := p.cmd.Start()
	if err != nil {
		fatal("spawn: %v", err)
	}
	ef.Close()
	go func() { p.done <- p.cmd.Wait() }()
	return p
}

// wait waits for the worker; a case that makes no progress for hang seconds is
// killed. It returns the reason the worker died, or "".
func (p *proc) wait(hang time.Duration) string {
	last := uint64(0)
	since := time.Now()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-p.done:
			if err == nil {
				return ""
			}
			b, _ := os.ReadFile(p.stderr)
			msg := string(b)
			if i := strings.Index(msg, "fatal error"); i >= 0 {
				msg = msg[i:]
			} else if i := strings.Index(msg, "panic:"); i >= 0 {
				msg = msg[i:]
			}
			if len(msg) > 600 {
				msg = msg[:600]
			}
			return fmt.Sprintf("the process died (%v): %s", err, msg)
		case <-tick.C:
			_, _, c := p.slot.get()
			if c != last {
				last, since = c, time.Now()
			} else if time.Since(since) > hang {
				p.cmd.Process.Kill()
				<-p.done
				return fmt.Sprintf("no result after %s: the call does not return", hang)
			}
		}
	}
}

func readResult(p *proc) (workerResult, []uint64) {
	var r workerResult
	b, err := os.ReadFile(p.args.Out)
	if err != nil {
		fatal("worker result: %v", err)
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("worker result: %v", err)
	}
	sb, _ := os.ReadFile(p.args.Out + ".states")
	st := make([]uint64, len(sb)/8)
	for i := range st {
		st[i] = binary.LittleEndian.Uint64(sb[i*8:])
	}
	os.Remove(p.args.Out + ".states")
	return r, st
}

// hangLimit may be shortened for experiments.
var hangLimit = func() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("VERIF_HANG")); err == nil && d > 0 {
		return d
	}
	return 60 * time.Second
}()

func drive(id string, quick bool) int {
	t0 := time.Now()
	c, ok := checks[id]
	if !ok {
		fatal("no such check %s", id)
	}
	tmp, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	suites := c.Suites(quick)
	known := loadKnown(id)
	budget := int64(330)
	if !quick {
		budget = 780
	}
	if v := os.Getenv("VERIF_BUDGET"); v != "" {
		budget, _ = strconv.ParseInt(v, 10, 64)
	}
	deadline := t0.Unix() + budget
	n := int64(runtime.NumCPU())
	if n > 8 {
		n = 8
	}
	type shardOut struct {
		res   []workerResult
		st    []uint64
		fails []Failure
		bad   bool
	}
	outs := make([]shardOut, n)
	fin := make(chan int, n)
	for k := int64(0); k < n; k++ {
		go func(k int64) {
			defer func() { fin <- 1 }()
			a := workerArgs{ID: id, Quick: quick, Shard: k, Shards: n, OnlySuite: -1, ToIndex: -1, Deadline: deadline}
			for try := 0; ; try++ {
				p := spawn(tmp, a, fmt.Sprintf("%d.%d", k, try))
				why := p.wait(hangLimit)
				if why == "" {
					r, st := readResult(p)
					outs[k].res = append(outs[k].res, r)
					outs[k].st = append(outs[k].st, st...)
					return
				}
				si, idx, _ := p.slot.get()
				if si >= len(suites) {
					fatal("worker died outside of a case: %s", why)
				}
				// The worker's counts up to here are lost; the crash is what matters.
				outs[k].bad = true
				outs[k].fails = append(outs[k].fails, Failure{suites[si].Name, idx, why})
				if try >= 3 {
					return
				}
				a.FromSuite, a.FromIndex = si, idx+n
			}
		}(k)
	}
	for k := int64(0); k < n; k++ {
		<-fin
	}
	// merge
	states := map[uint64]struct{}{}
	var trans, evals, nfail int64
	cases := map[string]int64{}
	outcome := map[string]int64{}
	samples := map[string][]string{}
	knownN := map[int]int64{}
	complete := map[string]bool{}
	secs := map[string]float64{}
	for _, s := range suites {
		complete[s.Name] = true
	}
	var fails []Failure
	capped := false
	for k := range outs {
		if outs[k].bad {
			for _, s := range suites {
				complete[s.Name] = false
			}
		}
		for _, h := range outs[k].st {
			states[h] = struct{}{}
		}
		fails = append(fails, outs[k].fails...)
		for _, r := range outs[k].res {
			trans += r.Trans
			evals += r.Evals
			nfail += r.NFail
			capped = capped || r.Capped
			fails = append(fails, r.Fails...)
			for s, v := range r.Cases {
				cases[s] += v
			}
			for s, v := range r.Outs {
				outcome[s] += v
			}
			for s, v := range r.Secs {
				secs[s] += v
			}
			for s, v := range r.Samples {
				if len(samples[s]) < 2 {
					samples[s] = append(samples[s], v...)
				}
			}
			for s, v := range r.KnownN {
				knownN[s] += v
			}
			for s, v := range r.Complete {
				if !v {
					complete[s] = false
				}
			}
		}
	}
	order := map[string]int{}
	for i, s := range suites {
		order[s.Name] = i
	}
	sort.SliceStable(fails, func(i, j int) bool {
		if fails[i].Suite != fails[j].Suite {
			return order[fails[i].Suite] < order[fails[j].Suite]
		}
		return fails[i].Index < fails[j].Index
	})
	// crash findings may be known too
	var open []Failure
	for _, f := range fails {
		isKnown := false
		for k := range known {
			if known[k].matches(f.Suite, f.Msg) {
				knownN[k]++
				isKnown = true
				break
			}
		}
		if !isKnown {
			open = append(open, f)
		}
	}
	// confirm
	var confirmed *Failure
	mode := ""
	var notes []string
	tried := map[string]bool{}
	for i := range open {
		f := open[i]
		key := fmt.Sprintf("%s/%d", f.Suite, f.Index)
		if tried[key] || len(tried) >= 4 {
			continue
		}
		tried[key] = true
		if msg := confirm(tmp, id, quick, order[f.Suite], f.Index, f.Index, n, 5, known); msg != "" {
			f.Msg = msg
			confirmed, mode = &f, "case"
			break
		}
		// it may need what ran before it in the same process
		if msg := confirm(tmp, id, quick, order[f.Suite], f.Index%n, f.Index, n, 2, known); msg != "" {
			f.Msg = msg
			confirmed, mode = &f, "history"
			break
		}
		notes = append(notes, fmt.Sprintf("not reproducible, not reported: %s: %s", key, f.Msg))
	}
	ks := make([]int, 0)
	for k := range knownN {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, known[k].What)
	}
	exhaustive := true
	var bounds []string
	for _, s := range suites {
		done := "complete"
		if !complete[s.Name] {
			done = "NOT complete"
			exhaustive = false
		}
		bounds = append(bounds, fmt.Sprintf("%s: %s; %d of %d cases, %s", s.Name, s.Bound, cases[s.Name], s.N, done))
	}
	var smp []string
	for _, s := range suites {
		for _, x := range samples[s.Name] {
			smp = append(smp, s.Name+": "+x)
		}
	}
	if len(smp) > 40 {
		smp = smp[:40]
	}
	if len(smp) == 0 {
		smp = []string{"none"}
	}
	tier := "quick"
	if !quick {
		tier = "thorough"
	}
	viol := 0
	if confirmed != nil {
		viol = 1
	}
	cov := map[string]interface{}{
		"states":                        len(states),
		"transitions":                   trans,
		"traces_validated_against_impl": evals,
		"samples":                       smp,
		"exhaustive":                    exhaustive && confirmed == nil,
		"bounds":                        bounds,
		"distinct_outcomes":             len(outcome),
		"outcomes":                      outcome,
		"suite_cpu_s":                   secs,
	}
	if capped {
		cov["states_note"] = "the table of distinct states was full; states is a lower bound"
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	if len(ks) > 0 {
		m := map[string]int64{}
		for _, k := range ks {
			m[known[k].What] = knownN[k]
		}
		cov["known_findings"] = m
	}
	writeEvidence(id, tier, cov, append([]string{
		"The oracle is a reference model in Go (maps, lists, encoding/json), independent of the code under test.",
		"Nothing is said about inputs outside the stated bounds.",
	}, c.Assume...), time.Since(t0).Seconds(), viol)
	fmt.Printf("%s %s: states=%d transitions=%d cases=%d outcomes=%d exhaustive=%v failures=%d known=%d wall=%.1fs\n",
		id, tier, len(states), trans, evals, len(outcome), exhaustive, nfail, len(ks), time.Since(t0).Seconds())
	if os.Getenv("VERIF_VERBOSE") != "" {
		for _, b := range bounds {
			fmt.Println("  ", b)
		}
		for _, s := range suites {
			fmt.Printf("   %s cpu=%.1fs\n", s.Name, secs[s.Name])
		}
		for i, f := range open {
			if i < 40 {
				fmt.Printf("   FAIL %s/%d %s\n", f.Suite, f.Index, f.Msg)
			}
		}
		for o, v := range outcome {
			fmt.Printf("   outcome %s %d\n", o, v)
		}
	}
	for _, x := range notes {
		fmt.Println(x)
	}
	if confirmed != nil {
		path := writeReplay(id, quick, order[confirmed.Suite], *confirmed, mode, n)
		fmt.Printf("%s/%d: %s\n", confirmed.Suite, confirmed.Index, confirmed.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	return 0
}

// confirm runs cases from..to (stride n) of one suite in fresh processes, times
// over; it returns a failure message only if every run failed.
func confirm(tmp, id string, quick bool, suite int, from, to, n int64, times int, known []KnownFinding) string {
	msg := ""
	for r := 0; r < times; r++ {
		a := workerArgs{ID: id, Quick: quick, Shard: from % n, Shards: n, FromSuite: suite, FromIndex: from, OnlySuite: suite, ToIndex: to + 1, Deadline: time.Now().Unix() + 200}
		p := spawn(tmp, a, "confirm")
		why := p.wait(hangLimit)
		if why == "" {
			res, _ := readResult(p)
			for _, f := range res.Fails {
				if f.Index == to {
					why = f.Msg
					break
				}
			}
		}
		if why == "" {
			return ""
		}
		for k := range known {
			if known[k].matches(checks[id].Suites(quick)[suite].Name, why) {
				return ""
			}
		}
		msg = why
	}
	return msg
}

type replayFile struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Suite    string `json:"suite"`
	SuiteIdx int    `json:"suite_index"`
	Index    int64  `json:"index"`
	Mode     string `json:"mode"` // case: this case alone; history: after the cases before it in its shard
	Shards   int64  `json:"shards"`
	Message  string `json:"message"`
	Replay   string `json:"replay_with"`
}

func writeReplay(id string, quick bool, suite int, f Failure, mode string, n int64) string {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, id+".json")
	tier := "quick"
	if !quick {
		tier = "thorough"
	}
	b, _ := json.MarshalIndent(replayFile{id, tier, f.Suite, suite, f.Index, mode, n, f.Msg, "bash /verif/check.sh " + id + " -replay " + path}, "", " ")
	os.WriteFile(path, append(b, '\n'), 0644)
	return path
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	tmp, _ := os.MkdirTemp("", "mc-replay-")
	defer os.RemoveAll(tmp)
	from := r.Index
	if r.Mode == "history" {
		from = r.Index % r.Shards
	}
	msg := confirm(tmp, r.Property, r.Tier != "thorough", r.SuiteIdx, from, r.Index, r.Shards, 1, loadKnown(r.Property))
	if msg == "" {
		fmt.Println("the case passes")
		return 0
	}
	fmt.Println(msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	return 1
}

func writeEvidence(id, tier string, cov map[string]interface{}, assume []string, wall float64, viol int) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": assume, "wall_s": wall, "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
}

func main() {
	selfExe, _ = os.Executable()
	if len(os.Args) >= 3 && os.Args[1] == "-worker" {
		var a workerArgs
		if err := json.Unmarshal([]byte(os.Args[2]), &a); err != nil {
			fatal("%v", err)
		}
		runWorker(a)
		return
	}
	if len(os.Args) >= 4 && os.Args[2] == "-replay" {
		os.Exit(replay(os.Args[3]))
	}
	if len(os.Args) < 2 {
		fatal("usage: mc ID [-replay FILE]")
	}
	os.Exit(drive(os.Args[1], os.Getenv("VERIF_TIER") != "thorough"))
}
