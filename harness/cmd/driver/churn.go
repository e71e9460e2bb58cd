package main

// Churn: the same few calls over and over, hundreds or tens of thousands of
// times (counters, generations and caches of the code wrap around or age). One
// line of the trace holds the calls of one round and the results of every
// round, equal rounds in a row counted instead of repeated.

import (
	"math/rand"
	"reflect"
	"time"
)

const maxRuns = 40 // rounds that differ from the one before; then the churn is cut short

// churnStep decides at which step of a history there is a churn (-1: nowhere).
func churnStep(r *rand.Rand, steps int) int {
	if r.Intn(7) > 0 {
		return -1
	}
	return r.Intn(steps)
}

func churnRounds(r *rand.Rand) int {
	switch r.Intn(10) {
	case 0:
		return 65536
	case 1:
		return 66000 + r.Intn(2000)
	case 2, 3, 4:
		return 256 + r.Intn(60)
	case 5:
		return 512
	case 6:
		return 128
	}
	return 256
}

// rounds runs the calls k times; ev is the line's event.
func rounds(ev M, k, n int, do func(i int) M) (res M) {
	runs := []M{}
	res = M{}
	end := time.Now().Add(15 * time.Second)
	for done := 0; done < k && len(runs) < maxRuns && len(res) == 0 && time.Now().Before(end); {
		rec.begin(ev)
		res = guarded(func() M {
			for j := 0; j < 50 && done < k && len(runs) < maxRuns; j++ {
				rs := make([]M, n)
				rec.beat()
				for i := range rs {
					rs[i] = do(i)
				}
				done++
				if l := len(runs); l > 0 && reflect.DeepEqual(runs[l-1]["rs"], rs) {
					runs[l-1]["n"] = runs[l-1]["n"].(int) + 1
				} else {
					runs = append(runs, M{"n": 1, "rs": rs})
				}
			}
			return M{}
		})
		rec.end()
	}
	if isPanic(res) {
		return res
	}
	return M{"ok": true, "runs": runs}
}

func (t *tabRun) churn(k int, cs ...call) {
	if t.dead {
		return
	}
	calls := []M{}
	for _, c := range cs {
		calls = append(calls, t.event(c))
	}
	ev := M{"op": "Churn", "h": 0, "calls": calls}
	t.finish(ev, rounds(ev, k, len(cs), func(i int) M { return t.perform(cs[i]) }))
}

func (t *tabRun) randChurn(focus map[string]int) {
	if t.cfg.co.n == 0 {
		return
	}
	t.look()
	if t.dead {
		return
	}
	r, idx := t.r, t.cfg.kind == "idx"
	k := churnRounds(r)
	free := func(n int) []int { // the lowest ids not in use
		out := []int{}
		for x := 0; len(out) < n && x < t.cfg.co.n && x < 2000; x++ {
			if _, ok := t.vals[x]; !ok {
				out = append(out, x)
			}
		}
		return out
	}
	arg := func(x int) arg { return t.cfg.inArg(r, x) }
	low, cl := free(2), t.claimedCodes()
	x := t.randCode()
	for j := 0; j < 8; j++ {
		if _, ok := t.vals[x]; ok {
			x = t.randCode()
		}
	}
	if x >= t.cfg.capCode() { // see known_findings.txt
		x = 0
	}
	var opts [][]call
	add := func(cs ...call) {
		for _, c := range cs {
			if focus[c.op] > 1 { // one of the calls this history is about
				opts = append(opts, cs, cs)
				break
			}
		}
		if r.Intn(3) == 0 {
			opts = append(opts, cs)
		}
	}
	v := t.randVal()
	add(call{op: "Claim", a: arg(x), v: v}, call{op: "Release", a: arg(x)})
	add(call{op: "Claim", a: arg(x), v: v}, call{op: "Update", a: arg(x), v: t.randVal()}, call{op: "Get", a: arg(x)}, call{op: "Release", a: arg(x)})
	add(call{op: "Claim", a: arg(x), v: v}, call{op: "Claim", a: arg(x), v: t.randVal()}, call{op: "Release", a: arg(x)}, call{op: "Release", a: arg(x)})
	add(call{op: "Claim", a: arg(x), v: v}, call{op: "Size"}, call{op: "Has", a: arg(x)}, call{op: "IsFree", a: arg(x)}, call{op: "Release", a: arg(x)}, call{op: "Size"})
	add(call{op: "FindFree"})
	add(call{op: "Release", a: arg(x)}, call{op: "Has", a: arg(x)}, call{op: "Get", a: arg(x)}, call{op: "Size"})
	if len(cl) > 0 {
		y := pick(r, cl)
		add(call{op: "Update", a: arg(y), v: v}, call{op: "Update", a: arg(y), v: t.randVal()})
		add(call{op: "Update", a: arg(y), v: v})
		add(call{op: "Claim", a: arg(y), v: v})
		add(call{op: "Get", a: arg(y)}, call{op: "Has", a: arg(y)})
		add(call{op: "Release", a: arg(y)}, call{op: "Claim", a: arg(y), v: v})
		if !idx && len(cl) < 30 {
			add(call{op: "GetByLabel", sel: randSel(r)}, call{op: "Claim", a: arg(x), v: v}, call{op: "Release", a: arg(x)})
		}
	}
	if len(low) > 0 && t.cfg.kind != "ip" {
		add(call{op: "ClaimDyn", v: v}, call{op: "Release", a: arg(low[0])})
		add(call{op: "FindFree"}, call{op: "ClaimDyn", v: v}, call{op: "FindFree"}, call{op: "Release", a: arg(low[0])})
	}
	if len(low) > 1 && idx {
		add(call{op: "ClaimSize", size: 2, v: v}, call{op: "Release", a: arg(low[0])}, call{op: "Release", a: arg(low[1])})
		add(call{op: "FindFreeSize", size: 2}, call{op: "FindFreeRange", a: arg(x), size: 2})
		if t.inRange(x+1) && t.nameable(x+1) {
			add(call{op: "ClaimRange", a: arg(x), size: 2, v: v}, call{op: "Release", a: arg(x)}, call{op: "Release", a: arg(x + 1)})
		}
	}
	if len(opts) > 0 {
		t.churn(k, pick(r, opts)...)
	}
}

func (t *treeRun) churn(k int, cs ...tcall) {
	if t.dead {
		return
	}
	calls := []M{}
	for _, c := range cs {
		calls = append(calls, t.event(c))
	}
	ev := M{"op": "Churn", "o": 1, "h": 0, "calls": calls}
	res := rounds(ev, k, len(cs), func(i int) M { return t.perform(cs[i]) })
	news := []int{}
	for _, c := range cs {
		if c.op == "Clone" {
			news = append(news, c.o2)
			if t.obs[c.o2] == nil {
				t.obs[c.o2], t.vals[c.o2] = map[string]string{}, map[string]Val{}
			}
		}
	}
	ev["new"] = news
	t.finish(ev, res, tcall{})
}

func (t *treeRun) randChurn() {
	t.look()
	if t.dead {
		return
	}
	r := t.r
	hs := t.handles()
	o := pick(r, hs)
	k := churnRounds(r)
	cl := t.claimed(o)
	p := t.randPrefix(o)
	for j := 0; j < 8; j++ {
		if _, ok := t.vals[o][p]; ok {
			p = t.randPrefix(o)
		}
	}
	v := randLabels(r)
	opts := [][]tcall{
		{{op: "Claim", o: o, p: p, v: v}, {op: "Release", o: o, p: p}},
		{{op: "Claim", o: o, p: p, v: v}},
		{{op: "Claim", o: o, p: p, v: v}, {op: "Get", o: o, p: p}, {op: "Size", o: o}, {op: "Release", o: o, p: p}, {op: "Get", o: o, p: p}, {op: "Size", o: o}},
		{{op: "Claim", o: o, p: p, v: v}, {op: "Parents", o: o, p: p}, {op: "Children", o: o, p: t.space()}, {op: "Release", o: o, p: p}},
	}
	if len(p) < t.w {
		q := p + randBits(r, 1+r.Intn(t.w-len(p)))
		opts = append(opts, []tcall{{op: "Claim", o: o, p: p, v: v}, {op: "Claim", o: o, p: q, v: randLabels(r)}, {op: "Release", o: o, p: p}, {op: "Release", o: o, p: q}},
			[]tcall{{op: "Claim", o: o, p: q, v: v}, {op: "Claim", o: o, p: p, v: randLabels(r)}, {op: "Release", o: o, p: p}, {op: "Release", o: o, p: q}})
	}
	if len(cl) > 0 {
		y := pick(r, cl)
		opts = append(opts, []tcall{{op: "Update", o: o, p: y, v: v}, {op: "Update", o: o, p: y, v: randLabels(r)}},
			[]tcall{{op: "Update", o: o, p: y, v: v}}, []tcall{{op: "Update", o: o, p: y, v: nearly(r, t.vals[o][y])}},
			[]tcall{{op: "Release", o: o, p: y}, {op: "Claim", o: o, p: y, v: v}})
	}
	if c := t.randRange(); c.kind == "ok" && len(cl) < 30 {
		c.o, c.v = o, Val{L: [][2]string{{"churn", "x"}}}
		k := k
		if r.Intn(3) > 0 || k > 2000 {
			k = 300
		}
		if r.Intn(5) == 0 {
			t.churn(k, c, tcall{op: "ReleaseByLabel", o: o, sel: Sel{T: "req", Rs: []Req{{K: "churn", Op: "ex", Vs: []string{}}}}})
			return
		}
	}
	// a dynamic claim, taken back each time
	if got := t.do(tcall{op: "ClaimFree", o: o, v: v}); got != "" {
		t.do(tcall{op: "Release", o: o, p: got})
		opts = append(opts, []tcall{{op: "ClaimFree", o: o, v: v}, {op: "Release", o: o, p: got}})
	}
	if len(hs) < 4 {
		if r.Intn(3) == 0 { // mostly clones
			opts = nil
		}
		o2 := t.nextO
		opts = append(opts, []tcall{{op: "Clone", o: o, o2: o2}}, []tcall{{op: "Clone", o: o, o2: o2}, {op: "Release", o: o2, p: p}}, []tcall{{op: "Clone", o: o, o2: o2}, {op: "Claim", o: o2, p: p, v: v}},
			[]tcall{{op: "Claim", o: o, p: p, v: v}, {op: "Clone", o: o, o2: o2}, {op: "Release", o: o, p: p}})
		t.nextO++
	}
	cs := pick(r, opts)
	t.churn(k, cs...)
}

func (t *multiRun) churn(k int, observe bool, cs ...mcall) {
	if t.dead {
		return
	}
	calls := []M{}
	for _, c := range cs {
		calls = append(calls, t.event(c))
	}
	ev := M{"op": "Churn", "o": 1, "calls": calls, "obs": observe, "st": [][2]any{}}
	t.finish(ev, rounds(ev, k, len(cs), func(i int) M { return t.perform(cs[i]) }), observe)
}

func (t *multiRun) randChurn(o int, id string, observe bool) {
	r := t.r
	k := churnRounds(r)
	v, u := mval{P: id + ":0", D: r.Intn(4)}, mval{P: id + ":1", D: 3}
	opts := [][]mcall{
		{{op: "Add", o: o, id: id, f: "nil", v: v}, {op: "Delete", o: o, id: id, f: "eq", v: v}},
		{{op: "Add", o: o, id: id, f: "eq", v: v}},
		{{op: "Add", o: o, id: id, f: "eq", v: v}, {op: "Delete", o: o, id: id, f: "all", v: v}},
		{{op: "Delete", o: o, id: id, f: "all", v: v}, {op: "Set", o: o, id: id, v: v}, {op: "Set", o: o, id: id, v: u}},
		{{op: "Add", o: o, id: id, f: "class", v: v}, {op: "Add", o: o, id: id, f: "class", v: u}, {op: "Delete", o: o, id: id, f: "class", v: u}},
	}
	if len(t.ts) < 3 {
		opts = append(opts, []mcall{{op: "Clone", o: o, o2: t.n}}, []mcall{{op: "Clone", o: o, o2: t.n}, {op: "Add", o: t.n, id: id, f: "nil", v: v}})
	}
	cs := pick(r, opts)
	for _, c := range cs {
		if c.op == "Clone" {
			t.n++
			break
		}
	}
	t.churn(k, observe, cs...)
}
