//go:build go1.22

// Bounded-exhaustive explorer used by every check.
//
// A property is a set of models.  A model is a Go function that is driven by a
// Chooser: every source of nondeterminism (operation, argument, environment
// answer, schedule) is a call of Choose(n).  The explorer enumerates the whole
// choice tree depth first, executing the REAL code of /repo on every leaf and
// comparing it with a reference model.  Leaves are distributed over worker
// processes; a crashing worker is attributed to the leaf recorded in its journal.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Model struct {
	Name string
	// Run drives one execution.
	Run func(x *X)
	// Thorough-only models are skipped in the quick tier.
	ThoroughOnly bool
}

type Prop struct {
	ID     string
	Level  string
	Rule   string
	Models []Model
	Assume []string
	// Serial properties run in a single worker (they change process-wide state).
	Workers int
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

type failure struct {
	Key string
	Msg string
}

type notMine struct{}
type pruned struct{}

// X is one execution context.
type X struct {
	Thorough bool
	Scratch  string // private scratch directory of this worker
	prefix   []int
	trace    []int
	width    []int
	note     strings.Builder
	desc     string
	began    bool
	w        *worker
}

// Choose returns a value in [0,n); every value is explored.
func (x *X) Choose(n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("Choose(%d)", n))
	}
	i := len(x.trace)
	v := 0
	if i < len(x.prefix) {
		v = x.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("replay diverged: choice %d is %d of %d", i, v, n))
		}
	}
	x.trace = append(x.trace, v)
	x.width = append(x.width, n)
	return v
}

func (x *X) Bool() bool { return x.Choose(2) == 1 }

func Pick[T any](x *X, vs ...T) T { return vs[x.Choose(len(vs))] }

// Tier picks q in the quick tier and t in the thorough tier.
func Tier[T any](x *X, q, t T) T {
	if x.Thorough {
		return t
	}
	return q
}

// Prune drops this branch (used for symmetric or out-of-domain choices).
func (x *X) Prune() { panic(pruned{}) }

// Begin marks the end of the input choices: the leaf is executed only by the
// worker that owns it.
func (x *X) Begin(desc string) {
	if x.began {
		return
	}
	x.began = true
	x.desc = desc
	if x.w != nil {
		idx := x.w.leaf
		x.w.leaf++
		if x.w.shards > 1 && int((uint64(idx)*0x9E3779B97F4A7C15)>>33)%x.w.shards != x.w.shard {
			panic(notMine{})
		}
		x.w.journal(x)
	}
}

func (x *X) Fail(key, format string, a ...any) {
	panic(failure{Key: key, Msg: fmt.Sprintf(format, a...)})
}

func (x *X) Check(ok bool, key, format string, a ...any) {
	if !ok {
		x.Fail(key, format, a...)
	}
}

// Op counts one transition: one operation executed on the real code.
func (x *X) Op(n int) {
	if x.w != nil {
		x.w.stats.Transitions += int64(n)
	}
}

// State records a canonical state of the reference model / of the system.
func (x *X) State(h uint64) {
	if x.w != nil && len(x.w.states) < 1<<20 { // memory: what is beyond is not counted
		x.w.states[h] = struct{}{}
	}
}

// Outcome records an observed result of the real code.
func (x *X) Outcome(h uint64) {
	if x.w != nil && len(x.w.outcomes) < 1<<20 {
		x.w.outcomes[h] = struct{}{}
	}
}

// Trivial marks the execution as trivial (nothing of interest happened).
func (x *X) Trivial() {
	if x.w != nil {
		x.w.stats.Trivial++
	}
}

type violation struct {
	Prop, Model, Key, Msg, Desc string
	Trace                       []int
	Repro                       string
}

type stats struct {
	Leaves      int64 // executions completed on the real code and compared with the model
	Nodes       int64 // choice-tree leaves enumerated (all shards see all)
	Transitions int64
	Trivial     int64
	Pruned      int64
	PerModel    map[string]int64
	Schedules   int64
	Exhausted   bool
	Samples     []string
}

type worker struct {
	prop     *Prop
	shard    int
	shards   int
	leaf     int64
	stats    stats
	states   map[uint64]struct{}
	outcomes map[uint64]struct{}
	jf       *os.File
	jbuf     []byte
	progress int64
	model    string
	seenKeys map[string]int
	deadline time.Time
}

func (w *worker) journal(x *X) {
	atomic.AddInt64(&w.progress, 1)
	b := w.jbuf
	if b == nil {
		return
	}
	s := w.model + ";" + joinInts(x.trace) + ";" + x.desc
	if len(s) > len(b)-9 {
		s = s[:len(b)-9]
	}
	copy(b[8:], s)
	n := len(s)
	for i := 0; i < 8; i++ {
		b[i] = byte(n >> (8 * i))
	}
}

func joinInts(v []int) string {
	var sb strings.Builder
	for i, c := range v {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(strconv.Itoa(c))
	}
	return sb.String()
}

func parseInts(s string) []int {
	var r []int
	if s == "" {
		return r
	}
	for _, f := range strings.Split(s, ",") {
		v, _ := strconv.Atoi(f)
		r = append(r, v)
	}
	return r
}

// runOne executes one leaf; returns a violation or nil, and whether it ran to completion.
func runOne(w *worker, p *Prop, m Model, prefix []int, thorough bool, scratch string) (x *X, v *violation, status int) {
	x = &X{Thorough: thorough, Scratch: scratch, prefix: prefix, w: w}
	defer func() {
		if r := recover(); r != nil {
			switch f := r.(type) {
			case notMine:
				status = 1
				return
			case pruned:
				status = 2
				return
			case failure:
				v = &violation{Prop: p.ID, Model: m.Name, Key: f.Key, Msg: f.Msg, Desc: x.desc, Trace: append([]int{}, x.trace...)}
			default:
				msg := fmt.Sprintf("panic: %v", r)
				st := panicSite(string(debug.Stack()))
				v = &violation{Prop: p.ID, Model: m.Name, Key: "panic", Msg: msg + " at " + st, Desc: x.desc, Trace: append([]int{}, x.trace...)}
			}
			status = 3
		}
	}()
	m.Run(x)
	return x, nil, 0
}

func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/") && !strings.Contains(l, "zzverif") && !strings.Contains(l, "/src/runtime/") && !strings.Contains(l, "/debug/stack.go") {
			if i := strings.Index(l, " +"); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
			if len(out) >= 3 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// next computes the next prefix in DFS order, nil when finished.
func nextPrefix(x *X) []int {
	t := x.trace
	for i := len(t) - 1; i >= 0; i-- {
		if t[i]+1 < x.width[i] {
			n := append([]int{}, t[:i+1]...)
			n[i]++
			return n
		}
	}
	return nil
}

type workerResult struct {
	Stats      stats
	States     int
	Violations []violation
}

type lastMsg struct{ f *os.File }

func (l lastMsg) Write(b []byte) (int, error) {
	buf := make([]byte, 512)
	n := copy(buf, b)
	for i := n; i < len(buf); i++ {
		buf[i] = ' '
	}
	l.f.WriteAt(buf, 0)
	return len(b), nil
}

func workerMain(p *Prop, thorough bool, shard, shards int, dir string, deadline time.Time, known map[string]bool) {
	w := &worker{prop: p, shard: shard, shards: shards, states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, seenKeys: map[string]int{}, deadline: deadline}
	w.stats.PerModel = map[string]int64{}
	base := filepath.Join(dir, fmt.Sprintf("w%d", shard))
	jf, err := os.OpenFile(base+".journal", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
	must(err)
	must(jf.Truncate(1 << 16))
	w.jbuf, err = syscall.Mmap(int(jf.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	lf, err := os.Create(base + ".log")
	must(err)
	log.SetOutput(lastMsg{lf})
	cf, err := os.Create(base + ".crash")
	must(err)
	debug.SetCrashOutput(cf, debug.CrashOptions{})
	scratch := base + ".d"
	must(os.MkdirAll(scratch, 0755))
	must(os.Chdir(scratch))

	go func() { // watchdog: a single execution must make progress
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			cur := atomic.LoadInt64(&w.progress)
			if cur != last {
				last, since = cur, time.Now()
			} else if time.Since(since) > hangLimit && last > 0 {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				os.WriteFile(base+".hang", buf[:n], 0644)
				os.Exit(77)
			}
		}
	}()

	var viol []violation
	newViol := 0
	capped := false
outer:
	for _, m := range p.Models {
		if m.ThoroughOnly && !thorough {
			continue
		}
		if only := os.Getenv("MC_MODEL"); only != "" && only != m.Name {
			continue
		}
		w.model = m.Name
		var prefix []int
		for {
			if time.Now().After(deadline) {
				capped = true
				break outer
			}
			x, v, status := runOne(w, p, m, prefix, thorough, scratch)
			w.stats.Nodes++
			switch status {
			case 0:
				w.stats.Leaves++
				w.stats.PerModel[m.Name]++
				if w.stats.PerModel[m.Name] <= 2 && x.desc != "" && shard == 0 {
					d := x.desc
					if len(d) > 300 {
						d = d[:300]
					}
					w.stats.Samples = append(w.stats.Samples, m.Name+"["+joinInts(x.trace)+"]: "+d)
				}
			case 2:
				w.stats.Pruned++
			case 3:
				w.stats.Leaves++
				w.stats.PerModel[m.Name]++
				kk := m.Name + "|" + v.Key
				w.seenKeys[kk]++
				isKnown := known[p.ID+"|"+m.Name+"|"+v.Key]
				if w.seenKeys[kk] <= 3 {
					viol = append(viol, *v)
				}
				if !isKnown {
					newViol++
				}
			}
			if newViol >= 3 {
				capped = true
				break outer
			}
			prefix = nextPrefix(x)
			if prefix == nil {
				break
			}
		}
	}
	w.stats.Exhausted = !capped
	res := workerResult{Stats: w.stats, States: len(w.states), Violations: viol}
	f, err := os.Create(base + ".json")
	must(err)
	must(json.NewEncoder(f).Encode(res))
	must(f.Close())
	dumpSet(base+".states", w.states)
	dumpSet(base+".outcomes", w.outcomes)
	os.Exit(0)
}

func dumpSet(fn string, s map[uint64]struct{}) {
	b := make([]byte, 0, len(s)*8)
	for h := range s {
		for i := 0; i < 8; i++ {
			b = append(b, byte(h>>(8*i)))
		}
	}
	must(os.WriteFile(fn, b, 0644))
}

func loadSet(fn string, into map[uint64]struct{}) {
	b, err := os.ReadFile(fn)
	if err != nil {
		return
	}
	for i := 0; i+8 <= len(b); i += 8 {
		var h uint64
		for j := 0; j < 8; j++ {
			h |= uint64(b[i+j]) << (8 * j)
		}
		into[h] = struct{}{}
	}
}

var hangLimit = 100 * time.Second

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(70)
	}
}

// ---- parent ----

func spawnWorker(args []string, dir string, tag string) (*exec.Cmd, error) {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS="+envOr("MC_GOMAXPROCS", "2"), "GOMEMLIMIT=3GiB")
	dn, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		return nil, err
	}
	cmd.Stdin, cmd.Stdout, cmd.Stderr = dn, dn, dn
	return cmd, cmd.Start()
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func readJournal(fn string) (model string, trace []int, desc string) {
	b, err := os.ReadFile(fn)
	if err != nil || len(b) < 8 {
		return
	}
	n := 0
	for i := 0; i < 8; i++ {
		n |= int(b[i]) << (8 * i)
	}
	if n <= 0 || n > len(b)-8 {
		return
	}
	parts := strings.SplitN(string(b[8:8+n]), ";", 3)
	if len(parts) < 3 {
		return
	}
	return parts[0], parseInts(parts[1]), parts[2]
}

// confirm re-runs one leaf in a fresh process; returns the violation observed there.
func confirm(p *Prop, tier string, v violation, dir string) (bool, string, string) {
	out := filepath.Join(dir, fmt.Sprintf("confirm-%d.json", time.Now().UnixNano()))
	cmd := exec.Command(os.Args[0], "replay1", p.ID, tier, v.Model, joinInts(v.Trace), dir, out)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	dn, _ := os.OpenFile("/dev/null", os.O_RDWR, 0)
	defer dn.Close()
	cmd.Stdin, cmd.Stdout, cmd.Stderr = dn, dn, dn
	if err := cmd.Start(); err != nil {
		return false, "", err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-time.After(hangLimit + 60*time.Second):
		cmd.Process.Kill()
		<-done
		return true, "hang", "no progress"
	case err := <-done:
		b, rerr := os.ReadFile(out)
		if rerr == nil {
			var r struct {
				Violated bool
				Key, Msg string
			}
			json.Unmarshal(b, &r)
			return r.Violated, r.Key, r.Msg
		}
		if ee, ok := err.(*exec.ExitError); ok {
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				return false, "killed", "killed"
			}
		}
		return true, "crash", "process ended without a result: " + fmt.Sprint(err)
	}
}

type knownFinding struct {
	Status   string `json:"status"`
	Property string `json:"property"`
	Model    string `json:"model"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(fn string) []knownFinding {
	b, err := os.ReadFile(fn)
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Status == "open" {
			r = append(r, k)
		}
	}
	return r
}

func parentMain(p *Prop, tier string, verif string) int {
	start := time.Now()
	thorough := tier == "thorough"
	budget := 300 * time.Second
	if thorough {
		budget = 3 * time.Hour
	}
	if s := os.Getenv("MC_BUDGET_S"); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(v) * time.Second
		}
	}
	deadline := start.Add(budget)
	dir, err := os.MkdirTemp("", "mc-"+p.ID+"-")
	must(err)
	defer os.RemoveAll(dir)
	knownList := loadKnown(filepath.Join(verif, "known_findings.jsonl"))
	shards := p.Workers
	if shards == 0 {
		shards = runtime.NumCPU()
		if shards > 8 {
			shards = 8
		}
	}
	type wr struct {
		shard int
		err   error
	}
	ch := make(chan wr, shards)
	running := map[int]*exec.Cmd{}
	var mu sync.Mutex
	for i := 0; i < shards; i++ {
		cmd, err := spawnWorker([]string{"worker", p.ID, tier, strconv.Itoa(i), strconv.Itoa(shards), dir, strconv.FormatInt(deadline.Unix(), 10), verif}, dir, "")
		if err != nil {
			must(err)
		}
		mu.Lock()
		running[i] = cmd
		mu.Unlock()
		go func(i int, cmd *exec.Cmd) { ch <- wr{i, cmd.Wait()} }(i, cmd)
	}
	var viols []violation
	states, outcomes := map[uint64]struct{}{}, map[uint64]struct{}{}
	tot := stats{PerModel: map[string]int64{}, Exhausted: true}
	internalErr := ""
	for k := 0; k < shards; k++ {
		r := <-ch
		base := filepath.Join(dir, fmt.Sprintf("w%d", r.shard))
		b, rerr := os.ReadFile(base + ".json")
		if rerr == nil {
			var res workerResult
			must(json.Unmarshal(b, &res))
			tot.Leaves += res.Stats.Leaves
			if res.Stats.Nodes > tot.Nodes {
				tot.Nodes = res.Stats.Nodes
			}
			tot.Transitions += res.Stats.Transitions
			tot.Schedules += res.Stats.Schedules
			tot.Trivial += res.Stats.Trivial
			if res.Stats.Pruned > tot.Pruned {
				tot.Pruned = res.Stats.Pruned
			}
			tot.Exhausted = tot.Exhausted && res.Stats.Exhausted
			for m, n := range res.Stats.PerModel {
				tot.PerModel[m] += n
			}
			tot.Samples = append(tot.Samples, res.Stats.Samples...)
			viols = append(viols, res.Violations...)
			loadSet(base+".states", states)
			loadSet(base+".outcomes", outcomes)
			continue
		}
		// the worker died: attribute to the journalled execution
		tot.Exhausted = false
		model, trace, desc := readJournal(base + ".journal")
		key, msg := "crash", ""
		if ee, ok := r.err.(*exec.ExitError); ok {
			ws, _ := ee.Sys().(syscall.WaitStatus)
			switch {
			case ws.Exited() && ws.ExitStatus() == 70:
				internalErr = "worker setup failed"
				continue
			case ws.Exited() && ws.ExitStatus() == 77:
				key = "hang"
				hb, _ := os.ReadFile(base + ".hang")
				msg = "execution made no progress: " + panicSite(string(hb))
			case ws.Exited():
				lb, _ := os.ReadFile(base + ".log")
				key = "exit"
				msg = fmt.Sprintf("library ended the process with status %d: %s", ws.ExitStatus(), strings.TrimSpace(string(lb)))
				cb, _ := os.ReadFile(base + ".crash")
				if len(cb) > 0 {
					key = "crash"
					msg = "runtime crash: " + firstLines(string(cb), 2) + " at " + panicSite(string(cb))
				}
			default:
				cb, _ := os.ReadFile(base + ".crash")
				msg = fmt.Sprintf("worker ended by %v: %s %s", ws.Signal(), firstLines(string(cb), 2), panicSite(string(cb)))
			}
		}
		if model == "" {
			internalErr = "worker died before its first execution: " + msg
			continue
		}
		viols = append(viols, violation{Prop: p.ID, Model: model, Key: key, Msg: msg, Desc: desc, Trace: trace})
	}
	// classify
	sort.SliceStable(viols, func(i, j int) bool { return len(viols[i].Trace) < len(viols[j].Trace) })
	knownHit := map[string]violation{}
	var fresh []violation
	for _, v := range viols {
		if kf := matchKnown(knownList, p.ID, v.Model, v.Key); kf != nil {
			if _, ok := knownHit[v.Model+"|"+v.Key]; !ok {
				v.Msg = kf.What
				knownHit[v.Model+"|"+v.Key] = v
			}
			continue
		}
		fresh = append(fresh, v)
	}
	var confirmed []violation
	for i, v := range fresh {
		if i >= 6 {
			break
		}
		ok, keys := 0, []string{}
		for r := 0; r < 5; r++ {
			viol, key, msg := confirm(p, tier, v, dir)
			if viol {
				ok++
				keys = append(keys, key)
				if v.Msg == "" {
					v.Msg = msg
				}
			}
			if viol && (key == "hang") {
				break // one confirmation of a hang is enough, it is slow
			}
			if r == 0 && !viol && v.Key == "hang" {
				break
			}
		}
		_ = keys
		if ok == 0 && (v.Key == "hang" || v.Key == "crash" || v.Key == "exit") {
			// could not be reproduced in isolation: not attributable to the code (e.g. memory pressure)
			fmt.Printf("note: unconfirmed %s in %s/%s: %s\n", v.Key, p.ID, v.Model, v.Msg)
			continue
		}
		v.Repro = fmt.Sprintf("%d of 5 replays", ok)
		confirmed = append(confirmed, v)
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed(), "level": p.Level,
		"coverage": map[string]any{
			"states":                        len(states),
			"transitions":                   tot.Transitions,
			"traces_validated_against_impl": tot.Leaves,
			"distinct_outcomes":             len(outcomes),
			"choice_tree_leaves":            tot.Nodes,
			"pruned_out_of_domain":          tot.Pruned,
			"trivial_executions":            tot.Trivial,
			"executions_per_model":          tot.PerModel,
			"rule":                          p.Rule,
			"samples":                       tot.Samples,
			"exhaustive":                    tot.Exhausted,
			"workers":                       shards,
		},
		"assumptions": p.Assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(confirmed),
	}
	if tot.Schedules > 0 {
		ev["coverage"].(map[string]any)["schedules"] = tot.Schedules
	}
	evb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	must(os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(evb, '\n'), 0644))
	var hitKeys []string
	for k := range knownHit {
		hitKeys = append(hitKeys, k)
	}
	sort.Strings(hitKeys)
	for _, k := range hitKeys {
		fmt.Printf("KNOWN-FINDING: property=%s model=%s key=%s %s\n", p.ID, knownHit[k].Model, knownHit[k].Key, knownHit[k].Msg)
	}
	fmt.Printf("%s %s: executions=%d states=%d transitions=%d outcomes=%d exhaustive=%v wall=%.1fs\n", p.ID, tier, tot.Leaves, len(states), tot.Transitions, len(outcomes), tot.Exhausted, time.Since(start).Seconds())
	if os.Getenv("MC_VERBOSE") != "" {
		fmt.Println(tot.PerModel)
	}
	if len(confirmed) > 0 {
		for _, v := range confirmed {
			rp := writeReplay(verif, tier, v)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
			fmt.Printf("  model=%s key=%s (%s)\n  input: %s\n  %s\n", v.Model, v.Key, v.Repro, clip(v.Desc, 1500), clip(v.Msg, 1500))
		}
		return 1
	}
	if internalErr != "" {
		fmt.Println("ERROR:", internalErr)
		return 2
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " ")
}

func matchKnown(l []knownFinding, prop, model, key string) *knownFinding {
	for i := range l {
		if l[i].Property == prop && l[i].Key == key && l[i].Model == model {
			return &l[i]
		}
	}
	return nil
}

func seed() int {
	v, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 0
	}
	return v
}

func writeReplay(verif, tier string, v violation) string {
	d := filepath.Join(verif, "replays")
	os.MkdirAll(d, 0755)
	h := fnv.New32a()
	io.WriteString(h, v.Model+v.Key+joinInts(v.Trace))
	fn := filepath.Join(d, fmt.Sprintf("%s-%08x.json", v.Prop, h.Sum32()))
	m := map[string]any{
		"property": v.Prop, "tier": tier, "model": v.Model, "choices": v.Trace, "input": v.Desc, "key": v.Key, "message": v.Msg,
		"replay_cmd": fmt.Sprintf("cd /verif && ./run.sh replay %s %s", v.Prop, fn),
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(fn, append(b, '\n'), 0644)
	return fn
}

// ---- hashing ----

type hasher struct{ h uint64 }

func newHash() *hasher { return &hasher{14695981039346656037} }
func (h *hasher) b(v byte) {
	h.h ^= uint64(v)
	h.h *= 1099511628211
}
func (h *hasher) U(v uint64) *hasher {
	for i := 0; i < 8; i++ {
		h.b(byte(v >> (8 * i)))
	}
	return h
}
func (h *hasher) I(v int) *hasher { return h.U(uint64(v)) }
func (h *hasher) F(v float64) *hasher {
	return h.U(uint64(int64(math.Round(v * 1e5))))
}
func (h *hasher) S(s string) *hasher {
	for i := 0; i < len(s); i++ {
		h.b(s[i])
	}
	h.b(0xff)
	return h
}
func (h *hasher) Sum() uint64 { return h.h }

func hashStr(s string) uint64 { return newHash().S(s).Sum() }
