package main

import (
	"encoding/json"
	"math/rand"
	"reflect"
	"sort"
	"strconv"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"
)

// mval is the payload stored in the generic tree: P starts with the prefix it
// was given for, D is a token.
type mval struct {
	P string `json:"p"`
	D int    `json:"d"`
}

func matcher(f string) tree.MatchesFunc[mval] {
	switch f {
	case "eq":
		return func(x, y mval) bool { return x == y }
	case "class":
		return func(x, y mval) bool { return x.P == y.P }
	case "le":
		return func(x, y mval) bool { return x.D <= y.D }
	case "all":
		return func(x, y mval) bool { return true }
	case "never":
		return func(x, y mval) bool { return false }
	}
	return nil
}

type multiRun struct {
	w    int
	r    *rand.Rand
	ts   map[int]*tree.Tree[mval]
	last map[int]string
	n    int
	dead bool
}

func newMultiRun(w int, r *rand.Rand, prof string) *multiRun {
	t := &multiRun{w: w, r: r, ts: map[int]*tree.Tree[mval]{}, last: map[int]string{}, n: 2}
	ev := M{"op": "new", "w": w, "prof": prof}
	ev["r"] = guarded(func() M {
		f := map[int]tree.IsLeftBitSetFn{16: id16.IsLeftBitSet, 32: id32.IsLeftBitSet, 64: id64.IsLeftBitSet}[w]
		t.ts[1] = tree.NewTree[mval]("t", f, uint8(w))
		t.last[1] = "[]"
		return M{}
	})
	t.dead = isPanic(ev["r"].(M))
	rec.emit(ev)
	return t
}

func (t *multiRun) listing(o int) [][]mval {
	out := [][]mval{}
	it := t.ts[o].Iterate()
	for it.Next() {
		out = append(out, append([]mval{}, it.Vals()...))
		if len(out) > 100000 {
			break
		}
	}
	return out
}

type mcall struct {
	op, id, f string
	o, o2     int
	v         mval
}

func (t *multiRun) do(c mcall, observe bool) {
	if t.dead {
		return
	}
	ev := t.event(c)
	ev["obs"], ev["st"] = observe, [][2]any{}
	rec.begin(ev)
	t.finish(ev, guarded(func() M { return t.perform(c) }), observe)
}

// event describes a call.
func (t *multiRun) event(c mcall) M {
	ev := M{"op": c.op, "o": c.o}
	switch c.op {
	case "Add", "Delete":
		ev["id"], ev["f"], ev["v"] = c.id, c.f, c.v
	case "Set":
		ev["id"], ev["v"] = c.id, c.v
	case "Clone":
		ev["o2"] = c.o2
	}
	return ev
}

func (t *multiRun) perform(c mcall) M {
	{
		g := t.ts[c.o]
		switch c.op {
		case "Add":
			b, n := g.Add(provID(t.w, c.id), c.v, matcher(c.f))
			return M{"grew": b, "n": n}
		case "Set":
			b, n := g.Set(provID(t.w, c.id), c.v)
			return M{"grew": b, "n": n}
		case "Delete":
			if t.r.Intn(2) == 0 {
				buf := make([]mval, t.r.Intn(4), 4+t.r.Intn(8))
				for i := range buf {
					buf[i] = mval{P: "stale", D: i}
				}
				return M{"n": g.DeleteWithBuffer(buf, provID(t.w, c.id), matcher(c.f), c.v)}
			}
			return M{"n": g.Delete(provID(t.w, c.id), matcher(c.f), c.v)}
		case "Iterate":
			if t.r.Intn(2) == 0 {
				return M{"es": t.listing(c.o)}
			}
			// two iterators in turn, with buffers that are not empty
			out, out2 := [][]mval{}, [][]mval{}
			it, jt := g.Iterate(), g.Iterate()
			buf := make([]mval, 2, 8)
			for it.Next() && len(out) < 100000 {
				buf = it.ValsWithBuffer(buf[:2])
				out = append(out, append([]mval{}, buf[2:]...))
				if t.r.Intn(3) > 0 && jt.Next() {
					out2 = append(out2, jt.Vals())
				}
			}
			for jt.Next() && len(out2) < 100000 {
				out2 = append(out2, jt.Vals())
			}
			if it.Next() || it.Next() || !reflect.DeepEqual(out, out2) {
				out = append(append(out, out2...), []mval{{P: "the iterators differ or go on"}})
			}
			return M{"es": out}
		case "Clone":
			t.ts[c.o2] = g.Clone()
			t.last[c.o2] = ""
			return M{}
		}
		panic("driver: unknown op " + c.op)
	}
}

// finish records the result and what is seen after it.
func (t *multiRun) finish(ev, res M, observe bool) {
	ev["r"] = res
	if !observe {
		t.last = map[int]string{} // the next observation is complete
	}
	if !isPanic(res) && observe {
		bad := guarded(func() M {
			hs := []int{}
			for h := range t.ts {
				hs = append(hs, h)
			}
			sort.Ints(hs)
			st := [][2]any{}
			for _, h := range hs {
				l := t.listing(h)
				b, _ := json.Marshal(l)
				if string(b) != t.last[h] {
					t.last[h] = string(b)
					st = append(st, [2]any{h, l})
				}
			}
			ev["st"] = st
			return M{}
		})
		if isPanic(bad) {
			ev["r"] = bad
			res = bad
		}
	}
	if isPanic(res) {
		t.dead = true
		ev["obs"] = false
	}
	rec.end()
	rec.emit(ev)
}

func multiHistory(w int, r *rand.Rand, steps int, prof string) {
	t := newMultiRun(w, r, prof)
	if t.dead {
		return
	}
	// listing() tells how many values a prefix has: its values carry the prefix
	count := func(o int, id string) int {
		n := 0
		for _, l := range t.listing(o) {
			if len(l) > 0 && prefOf(l[0].P) == id {
				n = len(l)
			}
		}
		return n
	}
	prefs := map[int][]string{1: {}}
	blind := r.Intn(4) == 0
	nodes := 4 + r.Intn(8)
	if prof == "wide" {
		nodes = 30 + r.Intn(60)
	}
	randPref := func(o int) string {
		ps := prefs[o]
		if len(ps) > 0 {
			p := pick(r, ps)
			if len(ps) >= nodes {
				return p
			}
			switch r.Intn(6) {
			case 0, 1:
				return p
			case 2:
				if len(p) > 0 {
					return p[:r.Intn(len(p)+1)]
				}
			case 3:
				if len(p) < w {
					return p + randBits(r, 1+r.Intn(min(w-len(p), 1+r.Intn(8))))
				}
			case 4:
				if len(p) > 0 {
					b := []byte(p)
					b[r.Intn(len(b))] ^= 1
					return string(b)
				}
			}
		}
		return randBits(r, r.Intn(w+1))
	}
	fs := []string{"eq", "eq", "class", "le", "all", "never"}
	if r.Intn(12) == 0 { // the prefixes of one id, one inside the other, in any order
		id := randBits(r, w)
		for _, l := range r.Perm(w + 1) {
			if p := id[:l]; r.Intn(12) > 0 && !t.dead {
				t.do(mcall{op: "Add", o: 1, id: p, f: "nil", v: mval{P: p + ":0", D: r.Intn(4)}}, r.Intn(20) == 0)
				prefs[1] = append(prefs[1], p)
			}
		}
		t.do(mcall{op: "Iterate", o: 1}, true)
		nodes, blind = 0, true
	}
	churnAt := churnStep(r, steps)
	longAt := -1
	if r.Intn(6) == 0 {
		longAt = r.Intn(steps)
	}
	for k := 0; k < steps && !t.dead; k++ {
		hs := []int{}
		for h := range t.ts {
			hs = append(hs, h)
		}
		sort.Ints(hs)
		o := pick(r, hs)
		id := randPref(o)
		if k == longAt {
			t.long(o, id, !blind)
			continue
		}
		if k == churnAt {
			t.randChurn(o, id, !blind)
			continue
		}
		c := mcall{o: o, id: id, v: mval{P: id + ":" + strconv.Itoa(r.Intn(2)), D: r.Intn(4)}}
		set := 3
		if prof == "set" {
			set = 9
		}
		switch x := r.Intn(20 + set); {
		case x < 8:
			c.op, c.f = "Add", pick(r, append(fs, "nil", "nil", "nil"))
		case x < 16:
			c.op, c.f = "Delete", pick(r, fs)
			if prof != "set" && r.Intn(3) > 0 {
				c.f = pick(r, []string{"all", "eq", "class"})
			}
			if len(prefs[o]) > 0 && r.Intn(3) > 0 {
				c.id = pick(r, prefs[o])
				c.v.P = c.id + c.v.P[len(id):]
			}
		case x < 18:
			c.op = "Iterate"
		case x < 19:
			if len(hs) >= 3 {
				continue
			}
			c.op, c.o2 = "Clone", t.n
			t.n++
			prefs[c.o2] = append([]string{}, prefs[o]...)
		case x < 20:
			c.op = "Iterate"
		default:
			if count(o, id) > 1 {
				continue
			}
			c.op = "Set"
		}
		if c.op == "Add" || c.op == "Set" {
			known := false
			for _, p := range prefs[o] {
				known = known || p == id
			}
			if !known {
				prefs[o] = append(prefs[o], id)
			}
		}
		t.do(c, !blind || k%17 == 16)
	}
	if !t.dead {
		for h := range t.ts {
			if h == 1 {
				t.do(mcall{op: "Iterate", o: h}, true)
			}
		}
	}
}

// long gives a prefix many values, then adds and deletes some of them by value.
func (t *multiRun) long(o int, id string, observe bool) {
	r := t.r
	n := pick(r, []int{5, 9, 12, 17, 33, 40})
	val := func(k int) mval { return mval{P: id + ":" + strconv.Itoa(k%2), D: 10 + k} }
	for k := 0; k < n; k++ {
		t.do(mcall{op: "Add", o: o, id: id, f: pick(r, []string{"nil", "nil", "eq", "never"}), v: val(k)}, observe && (k == n-1 || k%8 == 7))
	}
	for j := 0; j < 6; j++ {
		k := pick(r, []int{n - 1, n - 2, n, n / 2, 0, r.Intn(n)})
		op := pick(r, []string{"Add", "Add", "Delete"})
		t.do(mcall{op: op, o: o, id: id, f: pick(r, []string{"eq", "eq", "class", "le"}), v: val(k)}, observe)
	}
	if r.Intn(3) > 0 {
		t.do(mcall{op: "Delete", o: o, id: id, f: pick(r, []string{"all", "class"}), v: val(0)}, observe)
		t.do(mcall{op: "Delete", o: o, id: id, f: pick(r, []string{"le", "all"}), v: val(n - 2)}, observe)
	}
}

func prefOf(p string) string {
	for i := range p {
		if p[i] == ':' {
			return p[:i]
		}
	}
	return p
}

func genMulti(widths, prof string, traces, steps int, seed int64) {
	ws := parseInts(widths)
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < traces; i++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		p := pick(rr, splitComma(prof))
		multiHistory(ws[i%len(ws)], rr, steps, p)
	}
}

// scripted: behaviours of Patricia, spread over the real width.
func scriptedMulti(path, widths string, seed int64, clones bool) {
	type line struct {
		Op, Id, F string
		W         int
		D         int
	}
	var lines []line
	readLines(path, func(b []byte) {
		var l line
		if err := json.Unmarshal(b, &l); err != nil {
			fatal(err)
		}
		lines = append(lines, l)
	})
	for _, w := range parseInts(widths) {
		r := rand.New(rand.NewSource(seed + int64(w)))
		var t *multiRun
		var e *embedding
		cur := 1
		for _, l := range lines {
			if l.Op == "new" {
				e = newEmbedding(r, w, l.W, l.W, true)
				t = newMultiRun(w, r, "script")
				cur = 1
				continue
			}
			if clones && r.Intn(15) == 0 && len(t.ts) < 3 {
				t.do(mcall{op: "Clone", o: cur, o2: t.n}, true)
				if r.Intn(2) == 0 {
					cur = t.n
				}
				t.n++
			}
			id := e.bits(l.Id)
			t.do(mcall{op: l.Op, o: cur, id: id, f: l.F, v: mval{P: id + ":c", D: l.D}}, true)
		}
	}
}
