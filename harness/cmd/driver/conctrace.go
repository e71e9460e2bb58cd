package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/henderiw/idxtable/pkg/tree/gtree"
)

// ---- histories of concurrent calls ---------------------------------------
//
// A scenario is an object in some state and a short program for each of two
// or three threads. It is run under many schedules; every history seen (the
// order of invocations and returns, the results, the contents at the end) is
// recorded once, for LinTable / LinTree to judge.

type concObj interface {
	setup()               // a fresh object, in the initial state of the scenario
	call(t, k int) M      // the event (without result) of call k of thread t
	perform(t, k int) M   // performs it
	finalM() (any, M)     // contents; what a panic said
	late(t, k int, res M) // completes a result once all threads have ended
}

type concRec struct {
	head   M // kind, n, w, init ...
	out    map[string]bool
	stuck  int
	runs   int
	panics int
}

var points = 400 // preemption points tried per scenario and order

var clock atomic.Int64

// one run of the scenario; returns the number of scheduling points.
func (c *concRec) run(o concObj, prog []int, choose func(step, cur int, canRun []int) int, sched string) int {
	type done struct {
		inv, ret int64
		res      M
	}
	c.runs++
	if bad := guarded(func() M { o.setup(); return M{} }); isPanic(bad) {
		c.emit(M{"calls": []M{}, "final": []any{}, "stuck": "setup: " + bad["panic"].(string)}, sched)
		c.stuck++
		return 0
	}
	clock.Store(0)
	res := make([][]done, len(prog))
	bodies := make([]func(), len(prog))
	for t := range prog {
		res[t] = make([]done, prog[t])
		bodies[t] = func() {
			for k := 0; k < prog[t]; k++ {
				d := &res[t][k]
				d.inv = clock.Add(1)
				r := guarded(func() M { return o.perform(t, k) })
				d.res = r
				d.ret = clock.Add(1)
				if isPanic(r) {
					return
				}
			}
		}
	}
	if accessMode {
		startRecording()
	}
	why, steps := runThreads(bodies, choose)
	if accessMode {
		c.access(o, prog, why, sched)
		return steps
	}
	calls := []M{}
	final, bad := any([]any{}), M{}
	if why == "" {
		final, bad = o.finalM()
		if isPanic(bad) {
			why = "afterwards: " + bad["panic"].(string)
			final = []any{}
		}
	}
	for t := range prog {
		for k := 0; k < prog[t]; k++ {
			d := res[t][k]
			if d.inv == 0 {
				continue
			}
			e := o.call(t, k)
			e["t"], e["inv"] = t, d.inv
			switch {
			case d.res == nil:
				e["ret"] = 0
				e["r"] = M{"ok": false, "panic": "never returned"}
			case isPanic(d.res):
				e["ret"], e["r"] = d.ret, d.res
				c.panics++
				if why == "" {
					why = "panic: " + d.res["panic"].(string)
				}
			default:
				if why == "" {
					o.late(t, k, d.res)
				}
				e["ret"], e["r"] = d.ret, d.res
			}
			calls = append(calls, e)
		}
	}
	if why != "" {
		c.stuck++
		if len(why) > 300 {
			why = why[:300]
		}
	}
	c.emit(M{"calls": calls, "final": final, "stuck": why}, sched)
	return steps
}

// accessMode: what matters is which memory the threads touched, not what the
// calls answered.
var (
	accessMode bool
	accessSeen = map[string]bool{}
	accessRuns int
)

func (c *concRec) access(o concObj, prog []int, why, sched string) {
	m, ok := takeRecording(len(prog))
	if !ok {
		return
	}
	accessRuns++
	b, _ := json.Marshal(m["ev"])
	key := fmt.Sprint(m["cells"], m["locks"], m["threads"]) + string(b)
	if accessSeen[key] {
		return
	}
	accessSeen[key] = true
	calls := []M{}
	for t := range prog {
		for k := 0; k < prog[t]; k++ {
			e := o.call(t, k)
			e["t"] = t
			calls = append(calls, e)
		}
	}
	m["calls"] = calls
	for k, v := range c.head {
		m[k] = v
	}
	m["sched"], m["stuck"] = sched, why
	rec.emit(m)
	if why != "" {
		c.stuck++
	}
}

func (c *concRec) emit(m M, sched string) {
	b, _ := json.Marshal(m)
	if c.out[string(b)] {
		return
	}
	c.out[string(b)] = true
	m["op"] = "hist"
	for k, v := range c.head {
		m[k] = v
	}
	m["sched"] = sched
	rec.emit(m)
}

// explore runs a scenario under every schedule with at most one preemption
// and under extra random ones with more.
func (c *concRec) explore(o concObj, prog []int, r *rand.Rand, random, maxPoints int) {
	n := len(prog)
	if !cooperative {
		for k := 0; k < random; k++ {
			c.run(o, prog, nil, "real")
			if c.stuck > 2 {
				return
			}
		}
		return
	}
	if n > 3 { // a crowd: switches all the time
		for q := 0; q < 10+random; q++ {
			every, any := 1+q%5+r.Intn(1+q), r.Intn(3) == 0
			next := func(step, cur int, canRun []int) int {
				if cur >= 0 && step%every != 0 {
					return cur
				}
				if any || cur < 0 && r.Intn(2) == 0 {
					return pick(r, canRun)
				}
				for _, t := range canRun {
					if t > cur {
						return t
					}
				}
				return canRun[0]
			}
			c.run(o, prog, next, fmt.Sprint("switch every ", every, " steps, ", q))
			if c.stuck > 2 {
				return
			}
		}
		return
	}
	perms := [][]int{{0, 1}, {1, 0}}
	if n == 3 {
		perms = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	}
	follow := func(order []int, at map[int]int) func(step, cur int, canRun []int) int {
		has := func(canRun []int, x int) bool {
			for _, y := range canRun {
				if x == y {
					return true
				}
			}
			return false
		}
		return func(step, cur int, canRun []int) int {
			if cur >= 0 {
				if t, ok := at[step]; ok && has(canRun, t) {
					return t
				}
				return cur
			}
			for _, x := range order {
				if has(canRun, x) {
					return x
				}
			}
			return canRun[0]
		}
	}
	for _, order := range perms {
		total := c.run(o, prog, follow(order, nil), fmt.Sprint("order ", order))
		if c.stuck > 2 {
			return
		}
		points := []int{}
		for k := 1; k <= total; k++ {
			points = append(points, k)
		}
		if len(points) > maxPoints { // those at which no lock is held first of all
			free := append([]int{}, outside()...)
			r.Shuffle(len(points), func(i, j int) { points[i], points[j] = points[j], points[i] })
			r.Shuffle(len(free), func(i, j int) { free[i], free[j] = free[j], free[i] })
			free = free[:min(len(free), maxPoints*3/4)]
			points = append(free, points[:maxPoints-len(free)]...)
		}
		for _, k := range points {
			for t := 0; t < n; t++ {
				if t == order[0] && n == 2 && k <= 1 {
					continue
				}
				c.run(o, prog, follow(order, map[int]int{k: t}), fmt.Sprint("order ", order, ", at point ", k, " switch to ", t))
				if c.stuck > 2 {
					return
				}
			}
		}
		for q := 0; q < random && total > 2; q++ {
			at := map[int]int{}
			desc := ""
			for j := 0; j < 2+r.Intn(3); j++ {
				k, t := 1+r.Intn(total+total/2), r.Intn(n)
				at[k] = t
				desc += fmt.Sprint(" ", k, ":", t)
			}
			c.run(o, prog, follow(order, at), fmt.Sprint("order ", order, ", switches", desc))
			if c.stuck > 2 {
				return
			}
		}
	}
}

// ---- tables

type concTab struct {
	cfg   tcfg
	apart bool // a table for each thread
	init  []call
	progs [][]call
	runs  []*tabRun // one view of the object per thread
}

func (o *concTab) setup() {
	t := o.cfg.mk()
	o.runs = nil
	for range o.progs {
		if o.apart && len(o.runs) > 0 {
			t = o.cfg.mk()
		}
		o.runs = append(o.runs, &tabRun{cfg: o.cfg, t: t, obs: map[int]string{}, vals: map[int]Val{}, univ: map[int]bool{}, held: map[int]*held{}})
	}
	for k, r := range o.runs {
		if k == 0 || o.apart {
			for _, c := range o.init {
				r.perform(c)
			}
		}
	}
}
func (o *concTab) call(t, k int) M { return tabCallM(o.progs[t][k]) }
func (o *concTab) perform(t, k int) M {
	c := o.progs[t][k]
	if c.op == "use" || c.op == "overwrite" {
		for _, h := range o.runs[t].held {
			switch {
			case h.kind == "iter":
				for i := 0; i < 10 && h.step()["more"] == true; i++ {
				}
			case c.op == "use":
				h.read()
			default:
				h.scrib()
			}
		}
		return M{"ok": true}
	}
	return o.runs[t].perform(c)
}
func (o *concTab) late(t, k int, res M) {}
func (o *concTab) contents() [][2]any {
	st := [][2]any{}
	for c := 0; c < o.cfg.co.n; c++ {
		e, err := o.runs[0].t.Get(o.cfg.inArg(nil, c))
		if err == nil {
			st = append(st, [2]any{c, nv(e.V)})
		}
	}
	return st
}
func (o *concTab) finalM() (any, M) {
	var st [][2]any
	bad := guarded(func() M {
		st = o.contents()
		n := o.runs[0].t.Size()
		if n != len(st) {
			st = append(st, [2]any{badText, Val{L: [][2]string{}, D: fmt.Sprint("size ", n)}})
		}
		if o.cfg.kind != "ip" {
			for _, e := range o.runs[0].t.GetAll() {
				if !o.runs[0].inRange(e.I) {
					st = append(st, [2]any{badText, nv(e.V)})
				}
			}
		}
		return M{}
	})
	return st, bad
}

func tabCallM(c call) M {
	ev := M{"op": c.op}
	switch c.op {
	case "Claim", "Update":
		ev["id"], ev["v"] = c.a.code, nv(c.v)
	case "Release", "Get", "Has", "IsFree":
		ev["id"] = c.a.code
	case "ClaimDyn":
		ev["v"] = nv(c.v)
	case "ClaimRange":
		ev["id"], ev["size"], ev["v"] = c.a.code, capSize(c.size), nv(c.v)
	case "FindFreeRange":
		ev["id"], ev["size"] = c.a.code, capSize(c.size)
	case "ClaimSize":
		ev["size"], ev["v"] = capSize(c.size), nv(c.v)
	case "FindFreeSize":
		ev["size"] = capSize(c.size)
	case "GetByLabel":
		ev["sel"] = c.sel
	}
	return ev
}

// withUses lets the threads keep what they are given and use it afterwards.
func withUses(names []string, r *rand.Rand) []string {
	out := []string{}
	kept := false
	for _, n := range names {
		out = append(out, n)
		kept = kept || n == "GetAll" || n == "GetByLabel" || n == "Iterate" || n == "IterateFree" || n == "ClaimSize" || n == "FindFreeSize" ||
			n == "FindFreeRange" || n == "Children" || n == "Parents"
	}
	if kept {
		out = append(out, "use")
		if r.Intn(2) == 0 {
			out = append(out, "overwrite")
		}
	}
	return out
}

var concVals = []string{"x", "y"}

// concTabGen makes calls on a small table.
type concTabGen struct {
	cfg   tcfg
	r     *rand.Rand
	seq   int
	near  []int // ids to prefer, one after the other
	turn  int
	exact bool
}

func (g *concTabGen) val() Val {
	g.seq++
	v := Val{L: [][2]string{{"a", pick(g.r, concVals)}}}
	switch g.cfg.kind {
	case "idx":
		v.D = fmt.Sprintf("d%d", g.seq)
	case "ip":
		v.D = fmt.Sprintf("198.18.0.%d/32", g.seq&255)
	default:
		v.L = append(v.L, [2]string{"n", fmt.Sprint(g.seq)})
	}
	return v
}
func (g *concTabGen) id() arg {
	n := g.cfg.co.n
	if len(g.near) > 0 && (g.exact || g.r.Intn(6) > 0) {
		g.turn++
		return g.cfg.inArg(nil, g.near[g.turn%len(g.near)])
	}
	if g.r.Intn(14) == 0 {
		x := new(big.Int).Add(g.cfg.co.last, big.NewInt(1))
		a := arg{code: n, x: x}
		if g.cfg.kind == "ip" {
			a.s = ipText(nil, x, g.cfg.fam)
		}
		return a
	}
	return g.cfg.inArg(nil, g.r.Intn(n))
}
func (g *concTabGen) make(op string) call {
	c := call{op: op}
	switch op {
	case "Claim", "Update", "Release", "Get", "Has", "IsFree", "ClaimRange", "FindFreeRange":
		c.a = g.id()
		if op == "IsFree" && g.cfg.kind == "idx" && c.a.code >= g.cfg.co.n {
			c.a = g.cfg.inArg(nil, 0)
		}
	}
	switch op {
	case "Claim", "Update", "ClaimDyn", "ClaimRange", "ClaimSize":
		c.v = g.val()
	}
	switch op {
	case "ClaimRange", "FindFreeRange", "ClaimSize", "FindFreeSize":
		c.size = uint64(1 + g.r.Intn(3))
		if g.cfg.co.n > 20 {
			c.size = uint64(1 + g.r.Intn(g.cfg.co.n-4))
		}
		if (op == "ClaimRange" || op == "FindFreeRange") && g.r.Intn(5) > 0 {
			// one that fits
			n := g.cfg.co.n
			c.size = uint64(1 + g.r.Intn(n))
			if n > 1 && g.r.Intn(3) > 0 {
				c.size = uint64(2 + g.r.Intn(n-1))
			}
			c.a = g.cfg.inArg(nil, g.r.Intn(n-int(c.size)+1))
		}
	case "GetByLabel":
		c.sel = Sel{T: "req", Rs: []Req{{K: "a", Op: "eq", Vs: []string{pick(g.r, concVals)}}}}
		if g.r.Intn(3) == 0 {
			c.sel.Rs[0].Op = "neq"
		}
		if g.exact {
			c.sel.Rs[0] = Req{K: "a", Op: "ex", Vs: []string{}}
		}
	}
	return c
}

func tabOps(kind string) []string {
	ops := []string{"Claim", "Update", "Release", "Get", "Has", "IsFree", "Size", "FindFree", "GetAll"}
	switch kind {
	case "idx":
		return append(ops, "ClaimDyn", "ClaimRange", "FindFreeRange", "ClaimSize", "FindFreeSize", "Iterate", "IterateFree")
	case "ip":
		return append(ops, "GetByLabel")
	}
	return append(ops, "ClaimDyn", "GetByLabel")
}

var tabMut = []string{"Claim", "Release", "Update", "ClaimDyn", "ClaimRange", "ClaimSize"}
var tabDyn = []string{"ClaimDyn", "ClaimDyn", "ClaimSize", "FindFree"}

func keep(all, some []string) []string {
	out := []string{}
	for _, s := range some {
		for _, a := range all {
			if a == s {
				out = append(out, s)
			}
		}
	}
	return out
}

// a plan: the names of the calls of each thread, and what their arguments have
// to do with each other
type plan struct {
	p     [][]string
	close bool // the threads work on the same few ids, most of them claimed
	apart bool // the threads work on different objects
	large bool // many ids
	exact bool // the two short calls meet the entries they are about
}

// rank: the same call against itself first of all, then one call against one
func (p plan) rank() int {
	n := 0
	for _, t := range p.p {
		n += len(t)
	}
	switch {
	case n == 2 && p.p[0][0] == p.p[1][0]:
		return 0
	case n == 2:
		return 1
	}
	return 2
}

// largePlans: calls that take long on a large object, against two short ones
func largePlans(wide, short []string, r *rand.Rand, count int) []plan {
	var out []plan
	for k := 0; k < count; k++ {
		out = append(out, plan{p: [][]string{{wide[k%len(wide)]}, {pick(r, short), pick(r, short)}}, close: true, large: true})
	}
	return out
}

// crowds: four to six threads of one call each, many of them the same call
func crowds(ops, muts, dyn []string, prof string, r *rand.Rand) []plan {
	var out []plan
	each := ops
	if prof == "dyn" {
		each = dyn
	}
	for _, a := range each {
		for q := 0; q < 1+len(ops)/len(each); q++ {
			p := [][]string{{a}, {a}}
			for n := 4 + r.Intn(3); len(p) < n; {
				p = append(p, []string{pick(r, []string{a, a, pick(r, muts), pick(r, ops)})})
			}
			r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
			out = append(out, plan{p: p, close: r.Intn(2) == 0})
		}
	}
	return out
}

// listingPlans: a call that looks at every entry of a large object against a
// change near one end followed by a change near the other
func listingPlans(wide []string, r *rand.Rand) []plan {
	var out []plan
	for _, w := range wide {
		for _, two := range [][]string{{"Update", "Update"}, {"Claim", "Release"}, {"Release", "Claim"}, {pick(r, tabOne), pick(r, tabOne)}} {
			out = append(out, plan{p: [][]string{{w}, two}, close: true, large: true, exact: true})
		}
	}
	return out
}

// calls that look at or change many ids; each runs against two changes of one
// id each, so that the two are seen together or not
var tabWide = []string{"GetAll", "GetByLabel", "Iterate", "IterateFree", "Size", "FindFree", "FindFreeRange", "FindFreeSize", "ClaimDyn", "ClaimRange", "ClaimSize"}
var tabOne = []string{"Update", "Claim", "Release"}

func wideAgainstTwo(wide, one, after []string) []plan {
	var out []plan
	for _, w := range wide {
		for _, a := range one {
			for _, b := range one {
				out = append(out, plan{p: [][]string{{w}, {a, b}}, close: true})
				if a == b || b == "Update" {
					out = append(out, plan{p: [][]string{{w}, {a, b}}, close: true})
				}
			}
			for _, b := range after {
				out = append(out, plan{p: [][]string{{w}, {a, b}}, close: true})
			}
		}
	}
	return out
}

// plans for the threads of one round of scenarios
func tabPlans(ops []string, prof string, r *rand.Rand, count int) []plan {
	muts := keep(ops, tabMut)
	dyn := keep(ops, tabDyn)
	var out []plan
	if prof == "all" || prof == "pairs" {
		for i, a := range ops {
			for _, b := range ops[i:] {
				out = append(out, plan{p: [][]string{{a}, {b}}, close: r.Intn(2) == 0})
			}
		}
		if !accessMode {
			out = append(out, wideAgainstTwo(keep(ops, tabWide), tabOne, []string{"Get"})...)
		} else {
			for _, a := range ops {
				out = append(out, plan{p: [][]string{{a, pick(r, ops)}, {a, pick(r, ops)}}, apart: true})
			}
		}
	}
	if prof == "dyn" && len(dyn) > 0 {
		for _, a := range keep(ops, append([]string{"ClaimDyn"}, tabMut...)) {
			for _, b := range muts {
				out = append(out, plan{p: [][]string{{a}, {b, "ClaimDyn"}}, close: true})
			}
		}
	}
	wide := keep(ops, tabWide)
	if prof == "dyn" {
		wide = dyn
	}
	if len(wide) > 0 {
		out = append(out, largePlans(wide, []string{"Update", "Claim", "Release", "Claim", "Release", "Get"}, r, 3*len(wide))...)
	}
	if prof != "dyn" && !accessMode {
		out = append(out, listingPlans(keep(ops, []string{"GetAll", "GetByLabel", "Iterate", "Size"}), r)...)
	}
	out = append(out, crowds(ops, muts, dyn, prof, r)...)
	count = max(count, len(out)+count/3)
	for len(out) < count {
		var p [][]string
		switch {
		case prof == "dyn":
			if len(dyn) == 0 {
				return out
			}
			others := append(append([]string{}, dyn...), muts...)
			switch r.Intn(4) {
			case 0:
				p = [][]string{{pick(r, dyn)}, {pick(r, others)}}
			case 1:
				p = [][]string{{pick(r, dyn)}, {pick(r, others), pick(r, others)}}
			case 2:
				p = [][]string{{pick(r, dyn), pick(r, others)}, {pick(r, others), pick(r, dyn)}}
			case 3:
				p = [][]string{{pick(r, dyn)}, {pick(r, dyn)}, {pick(r, others)}}
			}
		default:
			switch r.Intn(4) {
			case 0, 1: // something against two changes
				p = [][]string{{pick(r, ops)}, {pick(r, muts), pick(r, muts)}}
			case 2:
				p = [][]string{{pick(r, ops), pick(r, ops)}, {pick(r, muts), pick(r, ops)}}
			case 3:
				p = [][]string{{pick(r, ops)}, {pick(r, muts)}, {pick(r, ops)}}
			}
		}
		out = append(out, plan{p: p, close: r.Intn(2) == 0, apart: accessMode && r.Intn(8) == 0})
	}
	return out
}

func concTabCfgs(kinds string) []tcfg {
	var out []tcfg
	for _, k := range strings.Split(kinds, ",") {
		switch k {
		case "idx":
			out = append(out, idxCfg(3), idxCfg(4), idxCfg(2))
		case "t16":
			out = append(out, numCfg(16, 10, 12), numCfg(16, 65533, 65535))
		case "t32":
			out = append(out, numCfg(32, 65535, 65537), numCfg(32, 0, 2))
		case "t64":
			out = append(out, numCfg(64, 1<<32-2, 1<<32), numCfg(64, 5, 6))
		case "ip":
			out = append(out, ipCfg("10.0.0.254", "10.0.1.0"), ipCfg("2001:db8::1", "2001:db8::3"))
		}
	}
	return out
}

func largeTabCfg(kind string, r *rand.Rand, exact bool) tcfg {
	n := pick(r, []int{24, 40, 70, 70, 140, 270})
	if exact {
		n = pick(r, []int{70, 140, 270})
	}
	switch kind {
	case "idx":
		return idxCfg(uint64(n))
	case "t16":
		return numCfg(16, uint64(300), uint64(300+n-1))
	case "t32":
		return numCfg(32, uint64(1<<32-n), 1<<32-1)
	case "t64":
		return numCfg(64, 1<<40, 1<<40+uint64(n-1))
	}
	return ipCfg("10.0.0.200", fmt.Sprintf("10.0.%d.%d", (200+n-1)/256, (200+n-1)%256))
}

// concTables explores scenarios on tables until the time is up.
func concTables(kinds, prof string, count, random int, seed int64, budget time.Duration) {
	t0 := time.Now()
	root := rand.New(rand.NewSource(seed))
	runs, scen := 0, 0
	type job struct {
		cfg tcfg
		p   plan
	}
	var jobs []job
	cfgs := map[string][]tcfg{}
	order := []string{}
	for _, c := range concTabCfgs(kinds) {
		if len(cfgs[c.kind]) == 0 {
			order = append(order, c.kind)
		}
		cfgs[c.kind] = append(cfgs[c.kind], c)
	}
	for _, k := range order {
		for i, p := range tabPlans(tabOps(k), prof, root, count) {
			c := cfgs[k][i%len(cfgs[k])]
			if p.large {
				c = largeTabCfg(k, root, p.exact)
			}
			jobs = append(jobs, job{c, p})
		}
	}
	root.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	if !cooperative { // there may not be time for all of them
		sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].p.rank() < jobs[j].p.rank() })
	}
	for _, j := range jobs {
		if time.Since(t0) > budget {
			break
		}
		r := rand.New(rand.NewSource(root.Int63()))
		g := &concTabGen{cfg: j.cfg, r: r, exact: j.p.exact}
		o := &concTab{cfg: j.cfg}
		o.apart = j.p.apart
		full := r.Intn(4)
		maxPoints := points
		if j.p.large {
			full, maxPoints = 0, min(points, 60)
			if !j.p.exact && r.Intn(4) == 0 {
				full = 1
			}
		}
		wants := map[string]bool{}
		for _, names := range j.p.p {
			for _, n := range names {
				wants[n] = true
			}
		}
		if j.p.close {
			g.near = r.Perm(j.cfg.co.n)[:min(2, j.cfg.co.n)]
			if wants["ClaimRange"] || wants["FindFreeRange"] || wants["ClaimSize"] || wants["FindFreeSize"] {
				full = 4
				g.near = nil
			}
			if j.p.large { // one of the first and one of the last ids
				n := j.cfg.co.n
				g.near = []int{r.Intn(3), n - 1 - r.Intn(3)}
				r.Shuffle(2, func(i, j int) { g.near[i], g.near[j] = g.near[j], g.near[i] })
				if wants["ClaimDyn"] || wants["FindFree"] {
					full = 5 // few are free, and high
				}
				if wants["IterateFree"] {
					full = 4
				}
			}
		}
		for c := 0; c < j.cfg.co.n; c++ {
			if full == 4 && r.Intn(6) > 0 || j.p.large && full == 4 && r.Intn(6) > 0 {
				continue
			}
			if full == 5 {
				if c < j.cfg.co.n-4 && (c > 3 || r.Intn(2) == 0) || r.Intn(2) == 0 {
					o.init = append(o.init, call{op: "Claim", a: j.cfg.inArg(nil, c), v: g.val()})
				}
				continue
			}
			if x := r.Intn(10); full == 0 && x > 0 || full == 1 && x < 1 || full > 1 && x < 5 {
				o.init = append(o.init, call{op: "Claim", a: j.cfg.inArg(nil, c), v: g.val()})
			}
		}
		prog := []int{}
		for _, names := range j.p.p {
			var cs []call
			g.turn = 0
			if accessMode {
				names = withUses(names, r)
			}
			for h, op := range names {
				c := g.make(op)
				if accessMode {
					c.h = h + 1
				}
				cs = append(cs, c)
			}
			for _, c := range cs {
				switch {
				case !j.p.exact || len(cs) < 2:
				case c.op == "Claim":
					o.init = append(o.init, call{op: "Release", a: c.a})
				default:
					o.init = append(o.init, call{op: "Claim", a: c.a, v: g.val()})
				}
			}
			o.progs = append(o.progs, cs)
			prog = append(prog, len(cs))
		}
		c := &concRec{out: map[string]bool{}}
		head := M{"kind": j.cfg.kind, "n": j.cfg.co.n, "w": j.cfg.w, "cap": j.cfg.co.n, "name": j.cfg.name}
		if bad := guarded(func() M { o.setup(); head["init"] = o.contents(); return M{} }); isPanic(bad) {
			head["init"] = []any{}
		}
		c.head = head
		c.explore(o, prog, r, random, maxPoints)
		runs += c.runs
		scen++
	}
	fmt.Printf("CONC scenarios=%d of %d schedules=%d judged=%d\n", scen, len(jobs), runs, accessRuns)
	_ = os.Stdout
}

// ---- trees

type concTree struct {
	w, n  int
	two   bool     // tree 2 is a clone of tree 1
	pool  []string // of a large tree: prefixes to use
	init  []tcall
	progs [][]tcall
	runs  []*treeRun
}

func (o *concTree) setup() {
	g, err := newGTree(o.w, o.n)
	if err != nil {
		fatal(err)
	}
	o.runs = nil
	base := &treeRun{w: o.w, n: o.n, univ: map[string]bool{}, held: map[int]func() []M{}, scrib: map[int]func(){}}
	base.ts = map[int]gtree.GTree{1: g}
	for _, c := range o.init {
		base.perform(c)
	}
	for range o.progs {
		ts := map[int]gtree.GTree{}
		for k, v := range base.ts {
			ts[k] = v
		}
		o.runs = append(o.runs, &treeRun{w: o.w, n: o.n, ts: ts, univ: map[string]bool{}, held: map[int]func() []M{}, scrib: map[int]func(){}})
	}
}
func (o *concTree) call(t, k int) M {
	c := o.progs[t][k]
	ev := M{"op": c.op, "o": c.o}
	switch c.op {
	case "Claim", "Update":
		ev["p"], ev["v"] = c.p, nv(c.v)
	case "Release", "Get", "Children", "Parents":
		ev["p"] = c.p
	case "ClaimFree":
		ev["v"] = nv(c.v)
	case "ClaimRange":
		ev["text"], ev["kind"], ev["a"], ev["b"], ev["v"] = c.text, c.kind, c.a, c.b, nv(c.v)
	case "ReleaseByLabel", "GetByLabel":
		ev["sel"] = c.sel
	}
	return ev
}
func (o *concTree) perform(t, k int) M {
	c := o.progs[t][k]
	switch c.op {
	case "use":
		for _, h := range o.runs[t].held {
			h()
		}
		return M{"ok": true}
	case "overwrite":
		for _, h := range o.runs[t].scrib {
			h()
		}
		return M{"ok": true}
	}
	return o.runs[t].perform(c)
}
func (o *concTree) late(t, k int, res M) {
	if c := o.progs[t][k]; c.op == "Clone" {
		var st any = []any{}
		if bad := guarded(func() M { st = o.contents(o.runs[t].ts[c.o2]); return M{} }); isPanic(bad) {
			st = [][2]any{{"bad", Val{L: [][2]string{}}}}
		}
		res["st"] = st
	}
}
func (o *concTree) contents(g gtree.GTree) [][2]any {
	st := [][2]any{}
	univ := map[string]bool{}
	if o.pool != nil { // large: what it lists, and that it has the first and the last of that
		es := g.GetAll()
		for k, e := range es {
			v := Val{L: labelsToL(e.Labels())}
			if k == 0 || k == len(es)-1 {
				if x, err := g.Get(e.ID()); err != nil || !x.Equal(e) {
					v.D = "no such entry"
				}
			}
			st = append(st, [2]any{idBits(o.w, e.ID()), v})
		}
		return st
	}
	for _, p := range o.universe() {
		univ[p] = true
		e, err := g.Get(mkID(o.w, p))
		if err == nil {
			v := Val{L: labelsToL(e.Labels())}
			if idBits(o.w, e.ID()) != p {
				v.D = "wrong id"
			}
			st = append(st, [2]any{p, v})
		}
	}
	n := 0
	for _, e := range g.GetAll() {
		if b := idBits(o.w, e.ID()); !univ[b] {
			st = append(st, [2]any{b, Val{L: labelsToL(e.Labels())}})
		}
		n++
	}
	if n != len(st) {
		st = append(st, [2]any{"bad", Val{L: [][2]string{}, D: fmt.Sprint("listed ", n)}})
	}
	return st
}
func (o *concTree) finalM() (any, M) {
	st := [][2]any{}
	bad := guarded(func() M {
		hs := []int{}
		for h := range o.runs[0].ts {
			if h <= 2 {
				hs = append(hs, h)
			}
		}
		sort.Ints(hs)
		for _, h := range hs {
			st = append(st, [2]any{h, o.contents(o.runs[0].ts[h])})
		}
		return M{}
	})
	return st, bad
}
func (o *concTree) universe() []string {
	if o.pool != nil {
		return o.pool
	}
	sp := strings.Repeat("0", o.w-o.n)
	out := []string{}
	var rec func(p string)
	rec = func(p string) {
		out = append(out, sp+p)
		if len(p) < o.n {
			rec(p + "0")
			rec(p + "1")
		}
	}
	rec("")
	if o.w > o.n {
		out = append(out, sp[:len(sp)-1], "")
	}
	return out
}

type concTreeGen struct {
	o     *concTree
	r     *rand.Rand
	seq   int
	near  []string // prefixes to prefer, one after the other
	turn  int
	obj   int // the tree to use; 0: any
	exact bool
}

func (g *concTreeGen) val() Val {
	g.seq++
	return Val{L: [][2]string{{"a", pick(g.r, concVals)}, {"n", fmt.Sprint(g.seq)}}}
}
func (g *concTreeGen) prefix() string {
	u := g.o.universe()
	if len(g.near) > 0 && (g.exact || g.r.Intn(6) > 0) {
		g.turn++
		return g.near[g.turn%len(g.near)]
	}
	if g.r.Intn(16) == 0 && g.o.w > g.o.n {
		return strings.Repeat("0", g.o.w-g.o.n-1) + "1"
	}
	return pick(g.r, u)
}
func (g *concTreeGen) make(op string) tcall {
	c := tcall{op: op, o: 1}
	if g.o.two && g.r.Intn(2) == 0 {
		c.o = 2
	}
	if g.obj > 0 {
		c.o = g.obj
	}
	switch op {
	case "Claim", "Update", "Release", "Get":
		c.p = g.prefix()
	case "Children", "Parents":
		c.p = g.prefix()
		if len(g.near) > 0 && g.r.Intn(6) > 0 {
			// a prefix around, or inside, all of the preferred ones
			first, last := g.near[0], g.near[1]
			if len(first) > len(last) {
				first, last = last, first
			}
			if c.p = last + strings.Repeat("0", g.o.w-len(last)); op == "Children" {
				if c.p = ""; len(first) > 0 && g.o.pool == nil {
					c.p = first[:len(first)-1]
				}
			}
		}
	}
	switch op {
	case "Claim", "Update", "ClaimFree", "ClaimRange":
		c.v = g.val()
	}
	switch op {
	case "ClaimRange":
		top := ^uint64(0) >> uint(64-g.o.n)
		a, b := g.r.Uint64()&top, g.r.Uint64()&top
		if g.o.pool != nil && g.r.Intn(3) > 0 {
			a, b = 1+uint64(g.r.Intn(3)), top-1-uint64(g.r.Intn(3))
		}
		if a > b {
			a, b = b, a
		}
		c.kind, c.text = "ok", fmt.Sprintf("%d-%d", a, b)
		c.a, c.b = numBits(g.o.w, a), numBits(g.o.w, b)
	case "GetByLabel", "ReleaseByLabel":
		c.sel = Sel{T: "req", Rs: []Req{{K: "a", Op: "eq", Vs: []string{pick(g.r, concVals)}}}}
		if g.r.Intn(3) == 0 {
			c.sel.Rs[0].Op = "neq"
		}
		if g.exact {
			c.sel.Rs[0] = Req{K: "a", Op: "ex", Vs: []string{}}
		}
		if g.r.Intn(5) == 0 {
			c.sel.Rs = []Req{}
		}
	case "Clone":
		c.o2 = 10 + g.seq
		g.seq++
	}
	return c
}

var treeOps = []string{"Claim", "Update", "Release", "Get", "ClaimFree", "ClaimRange", "ReleaseByLabel", "Children", "Parents", "GetByLabel", "GetAll", "Size", "Clone"}
var treeMut = []string{"Claim", "Update", "Release", "ClaimFree", "ClaimRange", "ReleaseByLabel"}

var treeWide = []string{"GetAll", "GetByLabel", "Children", "Parents", "Size", "Clone", "ClaimFree", "ClaimRange", "ReleaseByLabel"}

func treePlans(prof string, r *rand.Rand, count int) []plan {
	var out []plan
	if prof == "all" || prof == "pairs" {
		for i, a := range treeOps {
			for _, b := range treeOps[i:] {
				out = append(out, plan{p: [][]string{{a}, {b}}, close: r.Intn(2) == 0})
			}
		}
		if !accessMode {
			out = append(out, wideAgainstTwo(treeWide, tabOne, []string{"Get"})...)
		} else {
			for _, a := range treeOps {
				out = append(out, plan{p: [][]string{{a, pick(r, treeOps)}, {a, pick(r, treeOps)}}, apart: true})
			}
		}
	}
	wide := append([]string{"ClaimRange"}, treeWide...)
	if prof == "dyn" {
		wide = []string{"ClaimFree", "ClaimFree", "ClaimRange"}
	}
	out = append(out, largePlans(wide, []string{"Update", "Claim", "Release", "Claim", "Release", "Get", "GetAll", "ReleaseByLabel"}, r, 3*len(wide))...)
	if prof != "dyn" && !accessMode {
		out = append(out, listingPlans([]string{"GetAll", "GetByLabel", "Children", "Size", "Clone"}, r)...)
	}
	dyn := []string{"ClaimFree"}
	if prof == "dyn" {
		for _, a := range treeMut {
			for _, b := range treeMut {
				out = append(out, plan{p: [][]string{{a}, {b, "ClaimFree"}}, close: true})
			}
		}
	}
	out = append(out, crowds(treeOps, treeMut, dyn, prof, r)...)
	count = max(count, len(out)+count/3)
	for len(out) < count {
		var p [][]string
		switch {
		case prof == "dyn":
			others := []string{"ClaimFree", "ClaimFree", "Claim", "Release", "ClaimRange", "ReleaseByLabel", "Update"}
			switch r.Intn(4) {
			case 0:
				p = [][]string{dyn, {pick(r, others)}}
			case 1:
				p = [][]string{dyn, {pick(r, others), pick(r, others)}}
			case 2:
				p = [][]string{{"ClaimFree", pick(r, others)}, {pick(r, others), "ClaimFree"}}
			case 3:
				p = [][]string{dyn, dyn, {pick(r, others)}}
			}
		default:
			switch r.Intn(4) {
			case 0, 1:
				p = [][]string{{pick(r, treeOps)}, {pick(r, treeMut), pick(r, treeMut)}}
			case 2:
				p = [][]string{{pick(r, treeOps), pick(r, treeOps)}, {pick(r, treeMut), pick(r, treeOps)}}
			case 3:
				p = [][]string{{pick(r, treeOps)}, {pick(r, treeMut)}, {pick(r, treeOps)}}
			}
		}
		out = append(out, plan{p: p, close: r.Intn(2) == 0, apart: accessMode && r.Intn(8) == 0})
	}
	return out
}

func concTrees(kinds, prof string, count, random int, seed int64, budget time.Duration) {
	t0 := time.Now()
	root := rand.New(rand.NewSource(seed))
	runs, scen := 0, 0
	type job struct {
		w int
		p plan
	}
	var jobs []job
	for _, w := range parseInts(kinds) {
		for _, p := range treePlans(prof, root, count) {
			jobs = append(jobs, job{w, p})
		}
	}
	root.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	if !cooperative { // there may not be time for all of them
		sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].p.rank() < jobs[j].p.rank() })
	}
	for _, j := range jobs {
		if time.Since(t0) > budget {
			break
		}
		r := rand.New(rand.NewSource(root.Int63()))
		o := &concTree{w: j.w, n: 1 + r.Intn(2)}
		g := &concTreeGen{o: o, r: r, exact: j.p.exact}
		u := o.universe()
		full := r.Intn(5)
		if j.p.large {
			o.n = min(pick(r, []int{7, 8, 12, 32, 64}), o.w)
			size := pick(r, []int{2, 2, 20, 40, 70, 140})
			if j.p.exact {
				size = pick(r, []int{40, 70, 140})
				o.n = min(pick(r, []int{12, 32, 64}), o.w)
			}
			sp := strings.Repeat("0", o.w-o.n)
			seen := map[string]bool{}
			for k := 0; k < 40*size && len(o.pool) < size; k++ {
				p := sp + randBits(r, o.n-r.Intn(min(o.n, 7)))
				if !seen[p] {
					seen[p] = true
					o.pool = append(o.pool, p)
				}
			}
			sort.Strings(o.pool)
			u = o.pool
			for _, p := range o.pool {
				if r.Intn(8) > 0 {
					o.init = append(o.init, tcall{op: "Claim", o: 1, p: p, v: g.val()})
				}
			}
			if size > 2 && r.Intn(3) == 0 { // some gaps in the tree
				for k := 0; k < size/4; k++ {
					o.init = append(o.init, tcall{op: "Release", o: 1, p: pick(r, o.pool)})
				}
			}
			full = 9
		}
		if full == 9 {
		} else if full == 0 { // one free id at most
			for _, p := range u {
				if len(p) == o.w && r.Intn(5) > 0 {
					o.init = append(o.init, tcall{op: "Claim", o: 1, p: p, v: g.val()})
				}
			}
		} else {
			for k := 0; k < r.Intn(5); k++ {
				o.init = append(o.init, tcall{op: pick(r, []string{"Claim", "Claim", "Claim", "Release"}), o: 1, p: pick(r, u), v: g.val()})
			}
		}
		if j.p.large {
			k := len(u) - 1
			g.near = []string{u[r.Intn(min(3, k))], u[k-r.Intn(min(3, k))]}
			r.Shuffle(2, func(i, j int) { g.near[i], g.near[j] = g.near[j], g.near[i] })
		} else if j.p.close {
			// two prefixes, one inside the other or next to it
			q := strings.Repeat("0", o.w-o.n) + numBits(o.n, uint64(r.Intn(1<<o.n)))
			up := q[:o.w-r.Intn(o.n+1)]
			g.near = []string{q, up}
			if q == up || prof == "dyn" {
				g.near[1] = u[1+r.Intn(len(u)-1)]
			}
			if strings.Contains(fmt.Sprint(j.p.p), "Parents") {
				above := []string{}
				for _, p := range u {
					if len(p) < o.w && strings.HasPrefix(q, p) {
						above = append(above, p)
					}
				}
				x := r.Perm(len(above))
				g.near = []string{above[x[0]], above[x[1]]}
			}
			r.Shuffle(2, func(i, j int) { g.near[i], g.near[j] = g.near[j], g.near[i] })
			for _, p := range g.near {
				if r.Intn(8) > 0 {
					o.init = append(o.init, tcall{op: "Claim", o: 1, p: p, v: g.val()})
				}
			}
		}
		if r.Intn(4) == 0 || j.p.apart {
			o.two = true
			o.init = append(o.init, tcall{op: "Clone", o: 1, o2: 2})
		}
		prog := []int{}
		for t, names := range j.p.p {
			var cs []tcall
			g.turn, g.obj = 0, 0
			if j.p.apart {
				g.obj = 1 + t%2
			} else if j.p.exact || j.p.close && r.Intn(4) > 0 {
				g.obj = 1
			}
			if accessMode {
				names = withUses(names, r)
			}
			for h, op := range names {
				c := g.make(op)
				if accessMode {
					c.h = h + 1
				}
				cs = append(cs, c)
			}
			for _, c := range cs {
				switch {
				case !j.p.exact || len(cs) < 2:
				case c.op == "Claim":
					o.init = append(o.init, tcall{op: "Release", o: 1, p: c.p})
				default:
					o.init = append(o.init, tcall{op: "Claim", o: 1, p: c.p, v: g.val()})
				}
			}
			o.progs = append(o.progs, cs)
			prog = append(prog, len(cs))
		}
		c := &concRec{out: map[string]bool{}}
		head := M{"w": o.w, "n": o.n, "name": fmt.Sprintf("tree%d", o.w), "init": []any{}}
		guarded(func() M {
			o.setup()
			if st, bad := o.finalM(); !isPanic(bad) {
				head["init"] = st
			}
			return M{}
		})
		c.head = head
		maxPoints := min(points, 160)
		if j.p.large {
			maxPoints = min(points, 60)
		}
		c.explore(o, prog, r, random, maxPoints)
		runs += c.runs
		scen++
	}
	fmt.Printf("CONC scenarios=%d of %d schedules=%d judged=%d\n", scen, len(jobs), runs, accessRuns)
}
