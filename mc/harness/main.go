// Command harness runs the model-checking units of one property on the
// instrumented map package it is linked with.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifmc/vrt"
)

// Unit is one independent piece of a check.
type Unit struct {
	Name string
	Run  func(w *W) *Viol
}

// Viol is a violation with everything needed to replay it.
type Viol struct {
	Check    string  `json:"check"`
	Tier     string  `json:"tier"`
	Unit     string  `json:"unit"`
	Msg      string  `json:"msg"`
	Ctor     string  `json:"ctor,omitempty"`
	Scenario string  `json:"scenario,omitempty"`
	Schedule []uint8 `json:"schedule,omitempty"`
	Preempt  int     `json:"preemption_bound,omitempty"`
	Trace    string  `json:"trace,omitempty"`
}

// Stats is what a worker measured.
type Stats struct {
	Execs       int            `json:"execs"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Steps       int            `json:"steps"`
	Pruned      int            `json:"pruned"`
	Diverged    int            `json:"diverged"`
	Unstable    int            `json:"unstable"`
	Scenarios   int            `json:"scenarios"`
	Incomplete  int            `json:"incomplete"`
	Histories   int            `json:"histories"`
	MaxDepth    int            `json:"max_depth"`
	Count       map[string]int `json:"count"`
	Max         map[string]int `json:"max"`
	Ms          map[string]int `json:"ms"`
	Samples     []string       `json:"samples"`
	Notes       []string       `json:"notes"`
}

func (s *Stats) add(o *Stats) {
	s.Execs += o.Execs
	s.States += o.States
	s.Transitions += o.Transitions
	s.Steps += o.Steps
	s.Pruned += o.Pruned
	s.Diverged += o.Diverged
	s.Unstable += o.Unstable
	s.Scenarios += o.Scenarios
	s.Incomplete += o.Incomplete
	s.Histories += o.Histories
	s.MaxDepth = max(s.MaxDepth, o.MaxDepth)
	for k, v := range o.Count {
		if s.Count == nil {
			s.Count = map[string]int{}
		}
		s.Count[k] += v
	}
	for k, v := range o.Ms {
		if s.Ms == nil {
			s.Ms = map[string]int{}
		}
		s.Ms[k] += v
	}
	for k, v := range o.Max {
		if s.Max == nil {
			s.Max = map[string]int{}
		}
		s.Max[k] = max(s.Max[k], v)
	}
	if len(s.Samples) < 12 {
		s.Samples = append(s.Samples, o.Samples...)
	}
	for _, n := range o.Notes {
		if len(s.Notes) < 20 {
			s.Notes = append(s.Notes, n)
		}
	}
}

// W is the state of a worker process.
type W struct {
	Check, Tier string
	Thorough    bool
	Unit        string
	Stats       Stats
	ex          *vrt.Explorer
	deadline    time.Time
	unitLimit   time.Time
	trace       bool
}

func (w *W) count(k string, n int) {
	if w.Stats.Count == nil {
		w.Stats.Count = map[string]int{}
	}
	w.Stats.Count[k] += n
}

func (w *W) maxOf(k string, n int) {
	if w.Stats.Max == nil {
		w.Stats.Max = map[string]int{}
	}
	w.Stats.Max[k] = max(w.Stats.Max[k], n)
}

func (w *W) sample(s string) {
	if len(w.Stats.Samples) < 2 {
		w.Stats.Samples = append(w.Stats.Samples, s)
	}
}

func (w *W) note(s string) {
	if len(w.Stats.Notes) < 4 {
		w.Stats.Notes = append(w.Stats.Notes, s)
	}
}

func (w *W) expired() bool {
	now := time.Now()
	return now.After(w.deadline) || !w.unitLimit.IsZero() && now.After(w.unitLimit)
}

func (w *W) viol(msg string) *Viol {
	return &Viol{Check: w.Check, Tier: w.Tier, Unit: w.Unit, Msg: msg}
}

var progress atomic.Uint64 // changes while work is being done

type reply struct {
	Idx   int    `json:"idx"`
	Beat  uint64 `json:"beat,omitempty"`
	Stats *Stats `json:"stats,omitempty"`
	Viol  *Viol  `json:"viol,omitempty"`
}

var (
	fCheck    = flag.String("check", "", "property id")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fWorker   = flag.Bool("worker", false, "internal")
	fWorkers  = flag.Int("workers", min(8, runtime.NumCPU()), "worker processes")
	fSrc      = flag.String("src", "/repo", "source of the code under test")
	fInstr    = flag.String("instr", "", "instr.json of the code under test")
	fEvidence = flag.String("evidence", "", "evidence file to write")
	fReplays  = flag.String("replays", "", "directory for replay files")
	fReplay   = flag.String("replay", "", "replay this file")
	fUnits    = flag.String("units", "", "only units whose name contains this")
	fList     = flag.Bool("list", false, "list units")
	fBudget   = flag.Int("budget", 0, "seconds (0: default of the tier)")
	fUnit     = flag.String("unit", "", "only the unit of this name")
	fOther    = flag.String("other", "", "binary,instr.json,source of a build that must behave in the same way")
	fNoFile   = flag.Bool("nofile", false, "write no replay file")
	fFail     = flag.String("fail", "", "report the contents of this file as a violation")
	fNote     = flag.String("note", "", "note for the evidence")
	fProf     = flag.String("prof", "", "run the units in this process and write a CPU profile")
	fBits     = flag.Bool("bits", false, "print the word size")
	fVerbose  = flag.Bool("v", false, "progress")
)

type instrInfo struct {
	Level       string   `json:"level"`
	Hooks       int      `json:"hooks"`
	Loops       int      `json:"loops"`
	Globals     int      `json:"globals"`
	Unsupported []string `json:"unsupported"`
	TryLock     bool     `json:"trylock"`
}

var instr instrInfo

func main() {
	flag.Parse()
	if *fBits {
		fmt.Println(strconv.IntSize)
		return
	}
	debug.SetMaxStack(128 << 20)
	if *fInstr != "" {
		b, err := os.ReadFile(*fInstr)
		if err == nil {
			json.Unmarshal(b, &instr)
		}
	}
	vrt.UnlockPoints = instr.TryLock
	loadClasses(*fSrc)
	if *fFail != "" {
		b, _ := os.ReadFile(*fFail)
		os.Exit(finish(&Stats{}, 1, 1, 0, &Viol{Check: *fCheck, Tier: *fTier, Unit: "generator", Msg: string(b)}, time.Now()))
	}
	if *fWorker {
		worker()
		return
	}
	if *fReplay != "" {
		os.Exit(replay(*fReplay))
	}
	us := units(*fCheck, *fTier)
	if *fProf != "" {
		f, _ := os.Create(*fProf)
		pprof.StartCPUProfile(f)
		warmUp()
		w := newW()
		debug.SetGCPercent(400)
		for _, u := range us {
			w.Unit = u.Name
			t := time.Now()
			if v := u.Run(w); v != nil {
				fmt.Println(v.Msg)
			}
			if *fVerbose {
				fmt.Printf("%8.3f s %s\n", time.Since(t).Seconds(), u.Name)
			}
		}
		pprof.StopCPUProfile()
		fmt.Println(w.Stats.Execs, w.Stats.States, w.Stats.Steps)
		return
	}
	if *fList {
		for _, c := range ctors {
			fmt.Println(c.Name, "->", classes[c.Name])
		}
		for i, u := range us {
			fmt.Println(i, u.Name)
		}
		return
	}
	os.Exit(master(us))
}

func units(check, tier string) []Unit {
	f, ok := checks[check]
	if !ok {
		fmt.Fprintf(os.Stderr, "no check %q\n", check)
		os.Exit(2)
	}
	us := f(tier == "thorough")
	if *fUnit != "" {
		for _, u := range us {
			if u.Name == *fUnit {
				return []Unit{u}
			}
		}
		return nil
	}
	if *fUnits != "" {
		var r []Unit
		for _, u := range us {
			if strings.Contains(u.Name, *fUnits) {
				r = append(r, u)
			}
		}
		us = r
	}
	return us
}

func newW() *W {
	w := &W{Check: *fCheck, Tier: *fTier, Thorough: *fTier == "thorough", ex: vrt.NewExplorer()}
	w.deadline = time.Now().Add(24 * time.Hour)
	return w
}

func worker() {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	us := units(*fCheck, *fTier)
	warmUp()
	w := newW()
	if *fBudget > 0 {
		w.deadline = time.Now().Add(time.Duration(*fBudget) * time.Second)
	}
	var mu sync.Mutex
	enc := json.NewEncoder(os.Stdout)
	send := func(r reply) { mu.Lock(); enc.Encode(r); mu.Unlock() }
	cur := -1
	go func() {
		for {
			time.Sleep(time.Second)
			send(reply{Idx: -1, Beat: progress.Load() + uint64(cur+2)})
		}
	}()
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		i, err := strconv.Atoi(in.Text())
		if err != nil {
			return
		}
		cur = i
		w.Unit = us[i].Name
		w.Stats = Stats{}
		w.unitLimit = time.Time{}
		t0 := time.Now()
		v := us[i].Run(w)
		st := w.Stats
		fam, _, _ := strings.Cut(w.Unit, "/New")
		st.Ms = map[string]int{fam: int(time.Since(t0).Milliseconds())}
		send(reply{Idx: i, Stats: &st, Viol: v})
	}
}

type proc struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	unit  int
	beat  uint64
	since time.Time
	errb  *tail
	dead  bool
}

// tail keeps the end of a stream.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<14 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func master(us []Unit) int {
	start := time.Now()
	budget := *fBudget
	if budget == 0 {
		budget = 240
		if *fTier == "thorough" {
			budget = 780
		}
	}
	end := start.Add(time.Duration(budget) * time.Second)
	type msg struct {
		p *proc
		r reply
		e error
	}
	ch := make(chan msg, 64)
	spawn := func() *proc {
		self, _ := os.Executable()
		left := int(time.Until(end).Seconds())
		args := []string{"-worker", "-check", *fCheck, "-tier", *fTier, "-src", *fSrc, "-instr", *fInstr, "-units", *fUnits, "-unit", *fUnit, "-budget", strconv.Itoa(max(1, left))}
		c := exec.Command(self, args...)
		in, _ := c.StdinPipe()
		outp, _ := c.StdoutPipe()
		p := &proc{cmd: c, in: in, unit: -1, since: time.Now(), errb: &tail{}}
		c.Stderr = p.errb
		if err := c.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		go func() {
			d := json.NewDecoder(outp)
			for {
				var r reply
				if err := d.Decode(&r); err != nil {
					c.Wait()
					ch <- msg{p, reply{}, err}
					return
				}
				ch <- msg{p, r, nil}
			}
		}()
		return p
	}
	var tot Stats
	next, done, crashes := 0, 0, 0
	retried := map[int]int{}
	var retry []int
	var viol *Viol
	var procs []*proc
	active := 0
	give := func(p *proc) bool {
		i := -1
		if len(retry) > 0 {
			i = retry[0]
			retry = retry[1:]
		} else if next < len(us) && time.Now().Before(end) {
			i = next
			next++
		}
		if i < 0 {
			p.unit = -1
			p.in.Close()
			return false
		}
		p.unit, p.since = i, time.Now()
		fmt.Fprintln(p.in, i)
		return true
	}
	n := min(*fWorkers, max(1, len(us)))
	for k := 0; k < n; k++ {
		p := spawn()
		procs = append(procs, p)
		active++
		give(p)
	}
	lastLog := time.Now()
	for active > 0 && viol == nil {
		var m msg
		select {
		case m = <-ch:
		case <-time.After(5 * time.Second):
			continue
		}
		p := m.p
		switch {
		case m.e != nil:
			p.dead = true
			active--
			if p.unit >= 0 {
				// The worker died in this unit.
				crashes++
				u := p.unit
				retried[u]++
				text := string(p.errb.b)
				if retried[u] >= 3 {
					if strings.Contains(text, "zhangyunhao116/skipmap") && !strings.Contains(text, "out of memory") {
						viol = &Viol{Check: *fCheck, Tier: *fTier, Unit: us[u].Name, Msg: "the process running this unit died every time:\n" + cut(text, 4000)}
					} else {
						tot.Incomplete++
						tot.Notes = append(tot.Notes, "unit died: "+us[u].Name+": "+cut(text, 600))
						done++
					}
				} else {
					retry = append(retry, u)
				}
				if viol == nil {
					q := spawn()
					procs = append(procs, q)
					if give(q) {
						active++
					} else {
						active++ // will exit by itself
					}
				}
			}
		case m.r.Idx < 0:
			if m.r.Beat != p.beat {
				p.beat, p.since = m.r.Beat, time.Now()
			} else if p.unit >= 0 && time.Since(p.since) > 90*time.Second {
				p.errb.Write([]byte("no progress for 90 s (zhangyunhao116/skipmap call never returns?)"))
				p.cmd.Process.Kill()
			}
			if time.Now().After(end.Add(25 * time.Second)) {
				tot.Incomplete++
				p.unit = -1
				p.cmd.Process.Kill()
			}
		default:
			done++
			tot.add(m.r.Stats)
			if m.r.Viol != nil {
				if *fOther == "" || !otherFails(m.r.Viol.Unit) {
					viol = m.r.Viol
					break
				}
				tot.add(&Stats{Count: map[string]int{"failures shared by the committed and the generated code": 1},
					Notes: []string{"fails on the committed and the generated code alike: " + m.r.Viol.Unit + ": " + firstLine(m.r.Viol.Msg)}})
			}
			if *fVerbose && time.Since(lastLog) > 2*time.Second {
				lastLog = time.Now()
				fmt.Fprintf(os.Stderr, "%d/%d units, %d execs, %d states, %.0fs\n", done, len(us), tot.Execs, tot.States, time.Since(start).Seconds())
			}
			give(p)
		}
	}
	for _, p := range procs {
		if !p.dead {
			p.cmd.Process.Kill()
		}
	}
	if done < len(us) {
		tot.Incomplete += len(us) - done
	}
	if *fNote != "" {
		tot.Notes = append([]string{*fNote}, tot.Notes...)
	}
	return finish(&tot, len(us), done, crashes, viol, start)
}

// finish writes the evidence and the verdict.
func finish(tot *Stats, nunits, done, crashes int, viol *Viol, start time.Time) int {
	rc := 0
	if viol != nil {
		rc = 1
	}
	writeEvidence(tot, nunits, done, crashes, viol, time.Since(start))
	fmt.Printf("%s %s: %d/%d units, %d scenarios, %d executions, %d states, %d transitions, %d histories, incomplete %d, %.1fs (instrumentation %s)\n",
		*fCheck, *fTier, done, nunits, tot.Scenarios, tot.Execs, tot.States, tot.Transitions, tot.Histories, tot.Incomplete, time.Since(start).Seconds(), instr.Level)
	var ks []string
	for k := range tot.Count {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  %s: %d\n", k, tot.Count[k])
	}
	if *fVerbose {
		for k, v := range tot.Ms {
			fmt.Printf("  %6.1f s in %s\n", float64(v)/1000, k)
		}
	}
	for k, v := range tot.Max {
		fmt.Printf("  %s: %d (maximum)\n", k, v)
	}
	for _, s := range tot.Notes {
		fmt.Printf("  note: %s\n", s)
	}
	if viol != nil {
		path := filepath.Join(*fReplays, *fCheck+".json")
		if !*fNoFile {
			b, _ := json.MarshalIndent(viol, "", " ")
			os.MkdirAll(*fReplays, 0o755)
			os.WriteFile(path, b, 0o644)
		}
		fmt.Printf("\nunit %s %s\nscenario %s\n%s\n", viol.Unit, viol.Ctor, viol.Scenario, viol.Msg)
		if viol.Trace != "" {
			fmt.Printf("trace:\n%s\n", viol.Trace)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fCheck, path)
	}
	return rc
}

// otherFails runs one unit on the other build.
func otherFails(unit string) bool {
	f := strings.Split(*fOther, ",") // binary, instr.json, source
	c := exec.Command(f[0], "-check", *fCheck, "-tier", *fTier, "-unit", unit, "-instr", f[1], "-src", f[2], "-replays", os.TempDir(), "-nofile")
	out, err := c.CombinedOutput()
	return err != nil && strings.Contains(string(out), "VIOLATION property=")
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func writeEvidence(t *Stats, units, done, crashes int, v *Viol, d time.Duration) {
	if *fEvidence == "" {
		return
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	samples := t.Samples
	if len(samples) == 0 {
		samples = []string{"(none)"}
	}
	cov := map[string]any{
		"states": t.States, "transitions": t.Transitions, "traces_validated_against_impl": t.Execs,
		"samples": samples, "exhaustive": t.Incomplete == 0 && t.Diverged == 0,
		"scenarios": t.Scenarios, "executions_pruned_at_known_state": t.Pruned, "steps": t.Steps,
		"distinct_histories_judged": t.Histories, "max_schedule_depth": t.MaxDepth,
		"units": units, "units_done": done, "incomplete": t.Incomplete, "worker_crashes": crashes,
		"diverged": t.Diverged, "unstable": t.Unstable, "counts": t.Count, "maxima": t.Max, "cpu_ms": t.Ms, "notes": t.Notes,
		"instrumentation": instr,
		"explanation":     "every execution is a run of the instrumented real code, so each explored trace is a trace of the implementation; states are distinct (shared memory, per-thread history) signatures at scheduling decisions or distinct sequential states",
	}
	nv := 0
	if v != nil {
		nv = 1
	}
	e := map[string]any{"property": *fCheck, "tier": *fTier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptionsOf(*fCheck), "wall_s": d.Seconds(), "violations": nv}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Dir(*fEvidence), 0o755)
	os.WriteFile(*fEvidence, b, 0o644)
}

// replay runs the unit of a replay file again, with a trace of the failing schedule.
func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Viol
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	*fCheck, *fTier = v.Check, v.Tier
	warmUp()
	for _, u := range units(v.Check, v.Tier) {
		if u.Name == v.Unit {
			w := newW()
			w.Unit = u.Name
			w.trace = true
			if nv := u.Run(w); nv != nil {
				fmt.Printf("unit %s %s\nscenario %s\n%s\n%s\n", nv.Unit, nv.Ctor, nv.Scenario, nv.Msg, nv.Trace)
				fmt.Printf("VIOLATION property=%s replay=%s\n", v.Check, path)
				return 1
			}
			fmt.Println("the violation does not occur")
			return 0
		}
	}
	fmt.Println("no such unit: " + v.Unit)
	return 2
}

func assumptionsOf(id string) []string {
	a := []string{
		"sequentially consistent atomics and locks, as the Go memory model gives them; plain accesses are covered by the happens-before race check of every concurrent execution",
		"bounds as listed in DESIGN.md: goroutines, operations, keys, tower heights, preemptions",
		"the instrumenter preserves behaviour (it adds calls before lock, atomic and memory operations and at loop heads, and nothing else)",
		"map types whose code is equal token by token except for the key type and names are explored in depth through one representative, and through all constructors in the shallower families",
	}
	switch id {
	case "C16":
		a = append(a, "the Go collector is precise: an object it keeps after the run is reachable from what the harness keeps, which is the maps")
	case "C18":
		a = append(a, "the cost model counts atomic operations, lock acquisitions and loop iterations; the random source is uniform")
	}
	return a
}
