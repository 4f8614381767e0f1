//go:build go1.22

package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/l1va/goosli/zzsched"
	zatomic "github.com/l1va/goosli/zzsched/atomic"
)

var objNo = regexp.MustCompile("#[0-9]+")

// c02Self compares the reduced exploration with the exploration of all schedules on small
// programs, so that the reduction itself is checked on every run.
func c02Self(x *X) {
	ops := []string{"send a", "recv a", "send b", "recv b", "lock", "add", "load", "select", "close b", "once", "len a"}
	capA := x.Choose(3)
	threads := 2 + x.Choose(2)
	depth := 2
	if threads == 3 {
		depth = Tier(x, 1, 2)
	}
	prog := make([][]int, threads)
	for t := range prog {
		for i := 0; i < depth; i++ {
			prog[t] = append(prog[t], x.Choose(len(ops)))
		}
		if t > 0 && fmt.Sprint(prog[t]) < fmt.Sprint(prog[t-1]) {
			x.Prune() // the same threads in another order
		}
	}
	if !instrumented() {
		x.Prune()
	}
	if threads == 3 && depth == 2 && (prog[0][0]*7+prog[1][1]*5+prog[2][0]*3+prog[2][1])%11 != 0 {
		x.Prune()
	}
	d := fmt.Sprintf("cap %d:", capA)
	for _, p := range prog {
		for _, o := range p {
			d += " " + ops[o] + ";"
		}
		d += " |"
	}
	x.Begin(d)
	run := func(delays int) (map[string]bool, int, bool) {
		res := map[string]bool{}
		var logs []string
		n := 0
		st := zzsched.Explore(1, 20000, delays, func() {
			logs = make([]string, threads)
			a, b := zzsched.MakeChan[int](capA), zzsched.MakeChan[int](1)
			var mu zzsched.Mutex
			var cnt int64
			var once zzsched.Once
			shared := 0
			for t := range prog {
				t := t
				zzsched.Go(func() {
					say := func(f string, v ...any) { logs[t] += fmt.Sprintf(f, v...) + " " }
					for i, o := range prog[t] {
						switch ops[o] {
						case "send a":
							a.Send(10*t + i)
						case "recv a":
							v, ok := a.Recv2()
							say("a%d%v", v, ok)
						case "send b":
							b.Send(10*t + i)
						case "recv b":
							v, ok := b.Recv2()
							say("b%d%v", v, ok)
						case "lock":
							mu.Lock()
							shared++
							say("m%d", shared)
							mu.Unlock()
						case "add":
							say("+%d", zatomic.AddInt64(&cnt, 1))
						case "load":
							say("l%d", zatomic.LoadInt64(&cnt))
						case "select":
							k, v, ok := zzsched.Select(false, a.RecvCase(), b.SendCase(100+t), b.RecvCase())
							say("s%d,%v,%v", k, v, ok)
						case "close b":
							b.Close()
						case "once":
							once.Do(func() { say("o") })
						case "len a":
							say("n%d", a.Len())
						}
					}
				})
			}
		}, func(r zzsched.Result) bool {
			n++
			if x.w != nil {
				atomic.AddInt64(&x.w.progress, 1)
			}
			if r.Panic != "" {
				res[r.Panic] = true // what the others have done is not comparable
			} else {
				res[strings.Join(logs, "|")+"@"+objNo.ReplaceAllString(r.Leak, "")] = true
			}
			return true
		})
		return res, n, st.Complete
	}
	full, nf, all := run(1 << 20)
	if !all {
		x.Prune() // too many schedules to compare with
	}
	red, nr, _ := run(-1)
	x.Op(nf + nr)
	x.State(hashStr(d))
	panics := func(m map[string]bool) bool {
		for k := range m {
			if strings.HasPrefix(k, "panic") {
				return true
			}
		}
		return false
	}
	if panics(full) && panics(red) {
		return // a panic ends the program, nothing else has to be found
	}
	var miss []string
	for k := range full {
		if !red[k] {
			miss = append(miss, k)
		}
	}
	for k := range red {
		if !full[k] {
			miss = append(miss, "extra "+k)
		}
	}
	sort.Strings(miss)
	x.Outcome(newHash().I(len(full)).S(fmt.Sprint(len(miss))).Sum())
	if len(miss) > 0 {
		x.Fail("reduction", "%d of %d schedules explored, outcomes missed or invented: %v", nr, nf, miss)
	}
}
