package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"

	"bufio"

	"github.com/henderiw/idxtable/pkg/idxtable"
)

// call is one table operation.
type call struct {
	op   string
	a    arg
	v    Val
	size uint64
	sel  Sel
	h    int // handle under which the result is kept (0: not kept)
}

// held is a result kept by the caller.
type held struct {
	kind  string // "list" or "iter"
	read  func() M
	scrib func()
	step  func() M
}

type tabRun struct {
	cfg   tcfg
	t     tab
	r     *rand.Rand
	obs   map[int]string // observed contents: code -> encoded value
	vals  map[int]Val
	univ  map[int]bool
	hint  map[int]bool // claimed without looking; only used to choose arguments
	held  map[int]*held
	seq   int
	blind bool
	dead  bool
}

func newTabRun(cfg tcfg, r *rand.Rand, prof string) *tabRun {
	t := &tabRun{cfg: cfg, r: r, obs: map[int]string{}, vals: map[int]Val{}, univ: map[int]bool{}, hint: map[int]bool{}, held: map[int]*held{}}
	ev := M{"op": "new", "kind": cfg.kind, "n": cfg.co.n, "w": cfg.w, "cap": cfg.capCode(), "name": cfg.name, "prof": prof}
	res := guarded(func() M { t.t = cfg.mk(); return M{"ok": true} })
	ev["r"] = res
	if isPanic(res) {
		ev["r"] = res
		rec.emit(ev)
		t.dead = true
		return t
	}
	rec.emit(ev)
	if cfg.co.n <= 1200 {
		for i := 0; i < cfg.co.n; i++ {
			t.univ[i] = true
		}
	} else {
		for j := range cfg.co.anchors {
			for d := -4; d <= 4; d++ {
				c := j*2*reach + d
				if c >= 0 && c < cfg.co.n && (!cfg.co.exact || j == 0) {
					t.univ[c] = true
				}
			}
		}
		for d := 0; d < 40; d++ {
			t.univ[d] = true
		}
		for d := 1; d < 5; d++ {
			if cfg.co.n-d >= 0 {
				t.univ[cfg.co.n-d] = true
			}
		}
	}
	return t
}

// capCode is the first code whose offset in the range is 2^64-1 or more.
func (c *tcfg) capCode() int {
	lim := bi(m64)
	if c.co.count.Cmp(lim) <= 0 {
		return c.co.n
	}
	return c.co.codeOff(lim)
}

func (t *tabRun) inRange(code int) bool { return code >= 0 && code < t.cfg.co.n }

func (t *tabRun) enc(v Val) string { b, _ := json.Marshal(v); return string(b) }

// observe reads the contents through the public interface.
func (t *tabRun) observe() (set [][2]any, del []int, bad M) {
	set, del = [][2]any{}, []int{}
	bad = guarded(func() M {
		if t.cfg.kind != "ip" {
			for _, e := range t.t.GetAll() {
				if t.inRange(e.I) {
					t.univ[e.I] = true
				}
			}
		}
		keys := make([]int, 0, len(t.univ))
		for c := range t.univ {
			keys = append(keys, c)
		}
		sort.Ints(keys)
		for _, c := range keys {
			a := t.cfg.inArg(nil, c)
			e, err := t.t.Get(a)
			if err != nil {
				if _, ok := t.obs[c]; ok {
					del = append(del, c)
					delete(t.obs, c)
					delete(t.vals, c)
				}
				continue
			}
			if e.V.L == nil {
				e.V.L = [][2]string{}
			}
			s := t.enc(e.V)
			if t.obs[c] != s {
				t.obs[c] = s
				t.vals[c] = e.V
				set = append(set, [2]any{c, e.V})
			}
		}
		return M{}
	})
	return
}

func okErr(err error) M {
	if err != nil {
		return M{"ok": false}
	}
	return M{"ok": true}
}

func entM(e ent, err error) M {
	if err != nil {
		return M{"ok": false}
	}
	return M{"ok": true, "i": e.I, "l": e.L, "v": nv(e.V)}
}
func nv(v Val) Val {
	if v.L == nil {
		v.L = [][2]string{}
	}
	return v
}
func entsM(es []ent) []M {
	out := []M{}
	for _, e := range es {
		out = append(out, M{"i": e.I, "l": e.L, "v": nv(e.V)})
	}
	return out
}
func valsM(es []ent) []Val {
	out := []Val{}
	for _, e := range es {
		out = append(out, nv(e.V))
	}
	return out
}

// do performs one call on the real code and records it.
func (t *tabRun) do(c call) {
	if t.dead {
		return
	}
	ev := t.event(c)
	rec.begin(ev)
	res := guarded(func() M { return t.perform(c) })
	t.finish(ev, res)
}

// event describes a call.
func (t *tabRun) event(c call) M {
	ev := M{"op": c.op, "h": c.h}
	switch c.op {
	case "Claim", "Update":
		ev["id"], ev["v"] = c.a.code, nv(c.v)
	case "Release", "Get", "Has", "IsFree":
		ev["id"] = c.a.code
	case "ClaimDyn":
		ev["v"] = nv(c.v)
	case "ClaimRange":
		ev["id"], ev["size"], ev["v"] = c.a.code, capSize(c.size), nv(c.v)
	case "FindFreeRange":
		ev["id"], ev["size"] = c.a.code, capSize(c.size)
	case "ClaimSize":
		ev["size"], ev["v"] = capSize(c.size), nv(c.v)
	case "FindFreeSize":
		ev["size"] = capSize(c.size)
	case "GetByLabel":
		ev["sel"] = c.sel
	}
	if c.op == "Claim" || c.op == "Update" || c.op == "Release" {
		if t.inRange(c.a.code) {
			t.univ[c.a.code] = true
		}
	}
	return ev
}

// finish records the result and, unless the history is blind, what changed.
func (t *tabRun) finish(ev, res M) {
	ev["r"] = res
	if isPanic(res) {
		t.dead = true
		ev["obs"] = false
		rec.end()
		rec.emit(ev)
		return
	}
	ev["obs"] = !t.blind
	if !t.blind {
		set, del, bad := t.observe()
		ev["set"], ev["del"] = set, del
		if isPanic(bad) {
			ev["obs"] = false
			delete(ev, "set")
			delete(ev, "del")
			rec.end()
			rec.emit(ev)
			rec.emit(M{"op": "obs", "h": 0, "obs": false, "r": bad})
			t.dead = true
			return
		}
	}
	rec.end()
	rec.emit(ev)
}

// look records a full observation (after a stretch without any).
func (t *tabRun) look() {
	if t.dead {
		return
	}
	t.hint = map[int]bool{}
	ev := M{"op": "obs", "h": 0, "obs": true}
	rec.begin(ev)
	_, _, bad := t.observe()
	rec.end()
	if isPanic(bad) {
		ev["obs"], ev["r"] = false, bad
		rec.emit(ev)
		t.dead = true
		return
	}
	keys := make([]int, 0)
	for c := range t.vals {
		keys = append(keys, c)
	}
	sort.Ints(keys)
	st := [][2]any{}
	for _, c := range keys {
		st = append(st, [2]any{c, nv(t.vals[c])})
	}
	ev["r"] = M{"ok": true, "st": st}
	rec.emit(ev)
}

func capSize(s uint64) int {
	if s > bigCode {
		return bigCode
	}
	return int(s)
}

func (t *tabRun) perform(c call) M {
	ix, _ := t.t.(*idxTab)
	ip := t.cfg.kind == "ip"
	switch c.op {
	case "Claim":
		return okErr(t.t.Claim(c.a, c.v))
	case "Update":
		return okErr(t.t.Update(c.a, c.v))
	case "Release":
		return okErr(t.t.Release(c.a))
	case "Get":
		if c.h != 0 && ix != nil {
			e, err := ix.t.Get(ix.u(c.a))
			if err != nil {
				return M{"ok": false}
			}
			t.held[c.h] = &held{kind: "list", read: func() M { return M{"es": entsM([]ent{ix.ent(e)})} }, scrib: func() {}}
			return entM(ix.ent(e), nil)
		}
		return entM(t.t.Get(c.a))
	case "Has":
		return M{"b": t.t.Has(c.a)}
	case "IsFree":
		return M{"b": t.t.IsFree(c.a)}
	case "Size":
		return M{"n": t.t.Size()}
	case "FindFree":
		id, err := t.t.FindFree()
		if err != nil {
			return M{"ok": false}
		}
		return M{"ok": true, "i": id}
	case "ClaimDyn":
		e, err := t.t.ClaimDyn(c.v)
		if err == nil && t.inRange(e.I) {
			t.univ[e.I] = true
		}
		return entM(e, err)
	case "ClaimRange":
		return okErr(ix.t.ClaimRange(ix.u(c.a), c.size, c.v))
	case "FindFreeRange":
		ids, err := ix.t.FindFreeRange(ix.u(c.a), c.size)
		return t.idsM(ix, c, ids, err)
	case "FindFreeSize":
		ids, err := ix.t.FindFreeSize(c.size)
		return t.idsM(ix, c, ids, err)
	case "ClaimSize":
		es, err := ix.t.ClaimSize(c.size, c.v)
		if err != nil {
			return M{"ok": false}
		}
		if c.h != 0 {
			t.holdEntries(ix, c.h, es)
		}
		return M{"ok": true, "es": entsM(ix.ents(es))}
	case "GetAll":
		if ix != nil {
			es := ix.t.GetAll()
			if c.h != 0 {
				t.holdEntries(ix, c.h, es)
			}
			return M{"es": entsM(ix.ents(es))}
		}
		if nt, ok := t.t.(*numTab); ok {
			es := nt.t.GetAll()
			if c.h != 0 {
				t.held[c.h] = &held{kind: "list", read: func() M { return M{"es": entsM(nt.ents(es))} },
					scrib: func() {
						callerOverwrites(es)
						for i := range es {
							es[i] = es[0]
						}
						es = append(es, es...)
					}}
			}
			return M{"es": entsM(nt.ents(es))}
		}
		it := t.t.(*ipTab)
		es := it.t.GetAll()
		if c.h != 0 {
			t.held[c.h] = &held{kind: "list", read: func() M { return M{"vals": valsM(it.ents(es))} },
				scrib: func() {
					callerOverwrites(es)
					for i := range es {
						es[i] = es[0]
					}
					es = append(es, es...)
				}}
		}
		return M{"vals": valsM(it.ents(es))}
	case "GetByLabel":
		if nt, ok := t.t.(*numTab); ok {
			es := nt.t.GetByLabel(c.sel.selector())
			if c.h != 0 {
				t.held[c.h] = &held{kind: "list", read: func() M { return M{"es": entsM(nt.ents(es))} },
					scrib: func() {
						callerOverwrites(es)
						for i := range es {
							es[i] = es[0]
						}
					}}
			}
			return M{"es": entsM(nt.ents(es))}
		}
		if ip {
			it := t.t.(*ipTab)
			es := it.t.GetByLabel(c.sel.selector())
			if c.h != 0 {
				t.held[c.h] = &held{kind: "list", read: func() M { return M{"vals": valsM(it.ents(es))} },
					scrib: func() {
						callerOverwrites(es)
						for i := range es {
							es[i] = es[0]
						}
					}}
			}
			return M{"vals": valsM(it.ents(es))}
		}
		panic("driver: no label query on this table")
	case "Iterate", "IterateFree":
		var it *idxtable.Iterator[Val]
		free := c.op == "IterateFree"
		if free {
			it = ix.t.IterateFree()
		} else {
			it = ix.t.Iterate()
		}
		step := func() M {
			if !it.Next() {
				return M{"more": false}
			}
			m := M{"more": true, "i": ix.name(it.ID()), "cons": it.IsConsecutive()}
			if !free {
				e := it.Value()
				m["e"] = M{"i": ix.name(e.ID()), "l": 0, "v": nv(e.Data())}
			}
			return m
		}
		if c.h != 0 {
			t.held[c.h] = &held{kind: "iter", step: step}
			return M{"ok": true, "lazy": true}
		}
		es, ids, cons := []M{}, []int{}, []bool{}
		for k := 0; k < 200000; k++ {
			m := step()
			if m["more"] == false {
				break
			}
			ids = append(ids, m["i"].(int))
			cons = append(cons, m["cons"].(bool))
			if !free {
				es = append(es, m["e"].(M))
			}
		}
		if it.Next() || it.Next() {
			ids = append(ids, -1) // went on after its end
		}
		return M{"ok": true, "lazy": false, "es": es, "ids": ids, "cons": cons}
	}
	panic("driver: unknown op " + c.op)
}

func (t *tabRun) idsM(ix *idxTab, c call, ids []uint64, err error) M {
	if err != nil {
		return M{"ok": false}
	}
	if c.h != 0 {
		t.held[c.h] = &held{kind: "list", read: func() M { return M{"ids": ix.ids(ids)} },
			scrib: func() {
				for i := range ids {
					ids[i] = 0
				}
			}}
	}
	return M{"ok": true, "ids": ix.ids(ids)}
}

func (t *tabRun) holdEntries(ix *idxTab, h int, es idxtable.Entries[Val]) {
	t.held[h] = &held{kind: "list", read: func() M { return M{"es": entsM(ix.ents(es))} },
		scrib: func() {
			callerOverwrites(es)
			for i := range es {
				es[i] = idxtable.NewEntry(uint64(7), Val{D: "scribble"})
			}
		}}
}

// heldOp re-reads, steps or overwrites a kept result.
func (t *tabRun) heldOp(op string, h int) {
	if t.dead {
		return
	}
	ho := t.held[h]
	if ho == nil {
		return
	}
	if op == "Scribble" && ho.kind != "list" || op == "ReadHeld" && ho.kind != "list" || op == "Step" && ho.kind != "iter" {
		return
	}
	ev := M{"op": op, "h": h, "obs": true}
	rec.begin(ev)
	res := guarded(func() M {
		switch op {
		case "ReadHeld":
			return ho.read()
		case "Scribble":
			ho.scrib()
			return M{"ok": true}
		}
		return ho.step()
	})
	ev["r"] = res
	if isPanic(res) {
		ev["obs"] = false
		rec.end()
		rec.emit(ev)
		t.dead = true
		return
	}
	if op == "Scribble" {
		delete(t.held, h)
	}
	if t.blind {
		ev["obs"] = false
	} else {
		set, del, bad := t.observe()
		ev["set"], ev["del"] = set, del
		if isPanic(bad) {
			t.dead = true
			ev["obs"] = false
		}
	}
	rec.end()
	rec.emit(ev)
}

// ---- random histories ----------------------------------------------------

// weights of operations per focus
var tabFocus = map[string]map[string]int{
	"mix": {"Claim": 10, "Release": 5, "Update": 4, "Get": 4, "Has": 2, "IsFree": 2, "Size": 2, "FindFree": 3, "ClaimDyn": 5,
		"ClaimRange": 5, "FindFreeRange": 4, "ClaimSize": 4, "FindFreeSize": 3, "GetAll": 2, "GetByLabel": 2, "Iterate": 2, "IterateFree": 2, "held": 3},
	"claim":  {"Claim": 14, "Release": 6, "Update": 1, "ClaimDyn": 2, "ClaimSize": 1, "ClaimRange": 1, "Get": 1},
	"relupd": {"Claim": 10, "Release": 9, "Update": 9, "ClaimDyn": 1, "ClaimRange": 1, "Get": 1},
	"dyn":    {"Claim": 4, "Release": 6, "ClaimDyn": 10, "FindFree": 7, "ClaimRange": 1, "ClaimSize": 1},
	"range":  {"Claim": 3, "Release": 5, "ClaimRange": 10, "FindFreeRange": 8, "ClaimSize": 1, "ClaimDyn": 1},
	"size":   {"Claim": 3, "Release": 5, "ClaimSize": 10, "FindFreeSize": 8, "ClaimRange": 2, "ClaimDyn": 1},
	"reads": {"Claim": 5, "Release": 3, "Update": 2, "ClaimRange": 2, "ClaimSize": 1, "Get": 5, "Has": 4, "IsFree": 4, "Size": 3,
		"GetAll": 4, "Iterate": 4, "IterateFree": 4, "GetByLabel": 1},
	"labels": {"Claim": 8, "Release": 3, "Update": 4, "ClaimDyn": 4, "GetByLabel": 10, "GetAll": 1},
	"held": {"Claim": 7, "Release": 6, "Update": 5, "ClaimDyn": 2, "ClaimRange": 2, "ClaimSize": 3, "FindFreeRange": 2, "FindFreeSize": 2,
		"GetAll": 4, "GetByLabel": 3, "Iterate": 4, "IterateFree": 3, "Get": 3, "held": 16},
	"refuse": {"Claim": 10, "Release": 6, "Update": 8, "ClaimRange": 8, "ClaimSize": 5, "FindFree": 1, "ClaimDyn": 4, "Get": 2, "FindFreeRange": 2, "FindFreeSize": 2},
}

var idxOnly = map[string]bool{"ClaimRange": true, "FindFreeRange": true, "ClaimSize": true, "FindFreeSize": true, "Iterate": true, "IterateFree": true}

func weighted(r *rand.Rand, w map[string]int) string {
	keys := make([]string, 0, len(w))
	tot := 0
	for k := range w {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		tot += w[k]
	}
	x := r.Intn(tot)
	for _, k := range keys {
		if x -= w[k]; x < 0 {
			return k
		}
	}
	return keys[0]
}

func (t *tabRun) randVal() Val {
	v := randLabels(t.r)
	switch t.cfg.kind {
	case "idx":
		t.seq++
		v.D = fmt.Sprintf("d%d", t.seq)
		v.nilSet = false
	case "ip":
		t.seq++
		v.D = fmt.Sprintf("198.18.%d.%d/32", (t.seq>>8)&255, t.seq&255)
	}
	return v
}

func (t *tabRun) claimedCodes() []int {
	out := make([]int, 0, len(t.vals))
	for c := range t.vals {
		out = append(out, c)
	}
	for c := range t.hint {
		if _, ok := t.vals[c]; !ok {
			out = append(out, c)
		}
	}
	sort.Ints(out)
	return out
}

func (t *tabRun) randCode() int {
	n := t.cfg.co.n
	cl := t.claimedCodes()
	switch t.r.Intn(8) {
	case 0, 1:
		if len(cl) > 0 {
			return pick(t.r, cl)
		}
	case 2:
		if len(cl) > 0 {
			c := pick(t.r, cl) + t.r.Intn(3) - 1
			if t.inRange(c) && t.nameable(c) {
				return c
			}
		}
	case 3:
		return 0
	case 4:
		return n - 1
	case 5:
		j := t.r.Intn(len(t.cfg.co.anchors))
		c := j*2*reach + t.r.Intn(9) - 4
		if t.inRange(c) && t.nameable(c) {
			return c
		}
	}
	if n <= 1200 {
		return t.r.Intn(n)
	}
	if t.r.Intn(2) == 0 {
		return n - 1 - t.r.Intn(20)
	}
	return t.r.Intn(12)
}

// nameable: anchors' neighbourhoods do not fill the number line when compressed
func (t *tabRun) nameable(c int) bool {
	if t.cfg.co.exact {
		return true
	}
	j := (c + reach) / (2 * reach)
	d := c - j*2*reach
	return d > -reach && d < reach
}

func (t *tabRun) randArg() (arg, bool) {
	if t.cfg.co.n == 0 || t.r.Intn(7) == 0 {
		return t.cfg.outArg(t.r)
	}
	return t.cfg.inArg(t.r, t.randCode()), true
}

func (t *tabRun) randSize() uint64 {
	n := t.cfg.co.n
	switch t.r.Intn(12) {
	case 0:
		return 0
	case 1, 2, 3:
		return 1
	case 4:
		return 2
	case 5:
		if n < 1300 {
			return uint64(n) + uint64(t.r.Intn(3))
		}
		return uint64(1 + t.r.Intn(6))
	case 6:
		return uint64(m64) - uint64(t.r.Intn(4))
	case 7:
		// wraps around to just before or after a small start
		return uint64(m64) - uint64(t.r.Intn(n+2)%1000) + 1
	case 8:
		if n < 1300 {
			free := n - len(t.vals)
			x := free + t.r.Intn(3) - 1
			if x < 0 {
				x = 0
			}
			return uint64(x)
		}
	}
	return uint64(1 + t.r.Intn(6))
}

// manyLabels lists the ids with many labels.
func (t *tabRun) manyLabels() []int {
	out := []int{}
	for _, x := range t.claimedCodes() {
		if len(t.vals[x].L) > 5 {
			out = append(out, x)
		}
	}
	return out
}

func (t *tabRun) randCall(focus map[string]int) (call, bool) {
	op := weighted(t.r, focus)
	if op == "held" {
		return call{op: "held"}, true
	}
	if t.cfg.kind != "idx" && idxOnly[op] {
		return call{}, false
	}
	n := t.cfg.co.n
	c := call{op: op}
	switch op {
	case "Claim", "Update", "Release", "Get", "Has", "IsFree":
		a, ok := t.randArg()
		if !ok {
			return c, false
		}
		if t.cfg.kind == "idx" && op == "IsFree" && !t.inRange(a.code) {
			return c, false // unspecified for the plain table
		}
		if op == "Claim" && t.r.Intn(3) == 0 && n > 0 && t.inRange(a.code) { // prefer a free one
			if _, held := t.vals[a.code]; held {
				a = t.cfg.inArg(t.r, t.randCode())
			}
		}
		c.a, c.v = a, t.randVal()
		if op == "Update" {
			if many := t.manyLabels(); len(many) > 0 && t.inRange(a.code) && t.r.Intn(4) == 0 {
				a = t.cfg.inArg(t.r, pick(t.r, many))
				c.a = a
				c.v.L, c.v.nilSet = nearly(t.r, t.vals[a.code]).L, false
				break
			}
			switch t.r.Intn(8) {
			case 0, 1:
				if v, ok := alike(t.vals[a.code]); ok {
					c.v.L, c.v.nilSet = v.L, false
				}
			case 2, 3:
				c.v.L, c.v.nilSet = nearly(t.r, t.vals[a.code]).L, false
			}
		}
	case "ClaimDyn":
		if t.cfg.kind == "ip" {
			return c, false
		}
		c.v = t.randVal()
	case "ClaimRange", "FindFreeRange":
		a, ok := t.randArg()
		if !ok {
			return c, false
		}
		c.a, c.v, c.size = a, t.randVal(), t.randSize()
		if t.inRange(a.code) && t.r.Intn(3) == 0 {
			// up to the end of the table or one past it
			c.size = uint64(n-a.code) + uint64(t.r.Intn(2))
			if c.size > 1300 {
				c.size = uint64(1 + t.r.Intn(5))
			}
		}
		if t.inRange(a.code) && c.size > 1<<62 && t.r.Intn(2) == 0 {
			// start+size wraps around to a small number
			c.size = m64 - a.x.Uint64() + 1 + uint64(t.r.Intn(3))
		}
		if c.size > 1300 && new(big.Int).Add(bi(c.size), a.x).Cmp(new(big.Int).Add(t.cfg.co.last, big.NewInt(1))) <= 0 {
			return c, false // would claim too many ids
		}
	case "ClaimSize", "FindFreeSize":
		c.v, c.size = t.randVal(), t.randSize()
		if c.size > 1300 && bi(c.size).Cmp(t.cfg.co.count) <= 0 {
			return c, false
		}
	case "GetByLabel":
		if t.cfg.kind == "idx" {
			return c, false
		}
		c.sel = randSel(t.r)
		if cl := t.claimedCodes(); len(cl) > 0 && t.r.Intn(2) == 0 {
			// a selector some present entry matches
			v := t.vals[pick(t.r, cl)]
			if len(v.L) > 0 {
				kv := pick(t.r, v.L)
				c.sel = Sel{T: "req", Rs: []Req{{K: kv[0], Op: "eq", Vs: []string{kv[1]}}}}
			}
		}
	case "IterateFree":
		if n > 1200 {
			return c, false
		}
	}
	return c, true
}

// fill starts with the first ids of the table in use, about a power of two of
// them, looks for free ones, and gives most of them back.
func (t *tabRun) fill(focus map[string]int) {
	r, n, idx, blind := t.r, t.cfg.co.n, t.cfg.kind == "idx", t.blind
	t.blind = true
	m := pick(r, []int{16, 32, 64, 64, 128, 128, 256, 256, 512, 1024, n}) + pick(r, []int{0, 0, 0, -1, 1})
	m = min(min(m, n), min(t.cfg.capCode(), 1100))
	ids := r.Perm(m)
	hole := -1
	if r.Intn(3) == 0 {
		hole = ids[0]
		ids = ids[1:]
	}
	vs := []Val{}
	for k := 0; k < 3; k++ {
		v := nv(t.randVal())
		v.nilSet = false
		vs = append(vs, v)
	}
	t.many("Claim", ids, vs)
	for x := 0; x < m+100 && x < n; x++ {
		t.univ[x] = true
	}
	for _, x := range ids {
		t.hint[x] = true
	}
	in := func(x int) arg { return t.cfg.inArg(r, min(max(x, 0), n-1)) }
	t.do(call{op: "FindFree"})
	for k := 6; k > 0 && !t.dead; k-- {
		near := pick(r, []int{m, m - 1, m - 2, m + 1, m / 2, 0, hole, 63, 64, r.Intn(m)})
		size := uint64(pick(r, []int{1, 2, 3, 17, 64, 65, n - m, n - m + 1}))
		if size > 1300 {
			size = 5
		}
		op := weighted(r, focus)
		if op == "held" || idxOnly[op] && !idx || op == "ClaimDyn" && t.cfg.kind == "ip" || op == "IterateFree" && n > 1200 || op == "GetByLabel" && idx {
			continue
		}
		t.do(call{op: op, a: in(near), size: size, v: t.randVal(), sel: randSel(r)})
		if op == "Release" || op == "ClaimSize" || op == "ClaimDyn" {
			t.do(call{op: "FindFree"})
		}
	}
	if t.cfg.kind != "ip" {
		t.do(call{op: "ClaimDyn", v: t.randVal()})
	}
	if idx {
		t.do(call{op: "ClaimSize", size: uint64(1 + r.Intn(5)), v: t.randVal()})
		t.do(call{op: "FindFreeSize", size: uint64(1 + r.Intn(70))})
		t.do(call{op: "FindFreeRange", a: in(m - r.Intn(3)), size: uint64(1 + r.Intn(4))})
	}
	t.do(call{op: "Release", a: in(r.Intn(m))})
	t.do(call{op: "FindFree"})
	t.look()
	if t.dead {
		return
	}
	back := t.claimedCodes()
	r.Shuffle(len(back), func(i, j int) { back[i], back[j] = back[j], back[i] })
	t.many("Release", back[min(len(back), r.Intn(12)):], nil)
	t.look()
	t.blind = blind
}

func tabHistory(cfg tcfg, r *rand.Rand, prof string, steps int) {
	t := newTabRun(cfg, r, prof)
	focus := tabFocus[prof]
	t.blind = r.Intn(3) == 0
	n := cfg.co.n
	if n > 0 && n <= 64 && r.Intn(4) == 0 {
		// start (nearly) full
		for _, c := range r.Perm(n) {
			if r.Intn(12) != 0 {
				t.do(call{op: "Claim", a: cfg.inArg(r, c), v: t.randVal()})
				if t.blind {
					t.hint[c] = true
				}
			}
		}
	}
	if n > 20 && r.Intn(5) == 0 {
		t.fill(focus)
	}
	nextH, churnAt := 1, churnStep(r, steps)
	for k := 0; k < steps && !t.dead; k++ {
		if t.blind && k%17 == 16 {
			t.look()
		}
		if k == churnAt {
			t.randChurn(focus)
			continue
		}
		c, ok := t.randCall(focus)
		if !ok {
			continue
		}
		if c.op == "held" {
			if len(t.held) > 0 {
				hs := []int{}
				for h := range t.held {
					hs = append(hs, h)
				}
				sort.Ints(hs)
				t.heldOp(pick(r, []string{"ReadHeld", "ReadHeld", "Step", "Step", "Scribble"}), pick(r, hs))
			}
			continue
		}
		if prof == "held" || prof == "mix" && r.Intn(3) == 0 {
			switch c.op {
			case "GetAll", "GetByLabel", "Iterate", "IterateFree", "FindFreeRange", "FindFreeSize", "ClaimSize":
				c.h = nextH
				nextH++
			case "Get":
				if cfg.kind == "idx" {
					c.h = nextH
					nextH++
				}
			}
		}
		t.do(c)
	}
	t.look()
	for h := 1; h < nextH && !t.dead; h++ {
		t.heldOp("ReadHeld", h)
		for k := 0; k < 4; k++ {
			t.heldOp("Step", h)
		}
	}
}

// genTables writes random histories of tables of the given kinds.
func genTables(kinds, prof string, traces, steps int, seed int64) {
	want := map[string]bool{}
	for _, k := range strings.Split(kinds, ",") {
		want[k] = true
	}
	profs := strings.Split(prof, ",")
	var cfgs []tcfg
	for _, c := range allTabCfgs() {
		if !want["wide"] && c.capCode() < c.co.n {
			continue
		}
		if want[c.kind] {
			cfgs = append(cfgs, c)
		}
	}
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < traces; i++ {
		cfg := cfgs[i%len(cfgs)]
		tabHistory(cfg, rand.New(rand.NewSource(r.Int63())), profs[(i/len(cfgs)+i)%len(profs)], steps)
	}
}

// ---- scripted histories (behaviours of the specification) -----------------

type scriptLine struct {
	Op   string `json:"op"`
	N    int    `json:"n"`
	ID   int    `json:"id"`
	Size int    `json:"size"`
	V    string `json:"v"`
	Sel  string `json:"sel"`
}

// scripted replays behaviours generated by TLC from the table specification
// on every kind of table with that many ids.
func scripted(path string, kinds string, seed int64) {
	want := map[string]bool{}
	for _, k := range strings.Split(kinds, ",") {
		want[k] = true
	}
	f, err := os.Open(path)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	var lines []scriptLine
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		var l scriptLine
		if err := json.Unmarshal(sc.Bytes(), &l); err != nil {
			fatal(err)
		}
		lines = append(lines, l)
	}
	if len(lines) == 0 {
		return
	}
	n := uint64(lines[0].N)
	cfgs := []tcfg{idxCfg(n), numCfg(16, 65536-n, 65535), numCfg(16, 10, 9+n), numCfg(32, 1<<32-n, 1<<32-1), numCfg(32, 65534, 65533+n),
		numCfg(64, m64-n+1, m64), numCfg(64, 1<<32-2, 1<<32-3+n), ipCfg("10.0.0.254", intIP(4, "10.0.0.254", n)),
		ipCfg("2001:db8::ffff:ffff:ffff:fffe", intIP(6, "2001:db8::ffff:ffff:ffff:fffe", n))}
	for ci, cfg := range cfgs {
		if !want[cfg.kind] {
			continue
		}
		r := rand.New(rand.NewSource(seed + int64(ci)))
		var t *tabRun
		for _, l := range lines {
			if l.Op == "new" {
				t = newTabRun(cfg, r, "script")
				continue
			}
			if cfg.kind != "idx" && idxOnly[l.Op] || cfg.kind == "ip" && l.Op == "ClaimDyn" || cfg.kind == "idx" && l.Op == "GetByLabel" {
				continue
			}
			c := call{op: l.Op, size: uint64(l.Size)}
			c.v = Val{L: [][2]string{{"a", l.V}}}
			switch cfg.kind {
			case "idx":
				c.v.D = l.V
			case "ip":
				c.v.D = "198.18.0.0/24"
			}
			c.sel = Sel{T: "req", Rs: []Req{{K: "a", Op: "eq", Vs: []string{l.Sel}}}}
			if t.inRange(l.ID) {
				c.a = cfg.inArg(r, l.ID)
			} else {
				x := new(big.Int).Add(cfg.co.first, big.NewInt(int64(l.ID)))
				c.a = arg{code: l.ID, x: x}
				if x.Sign() < 0 || cfg.kind != "ip" && x.BitLen() > 64 {
					continue
				}
				if cfg.kind == "ip" {
					c.a.s = ipText(r, x, cfg.fam)
				}
				if cfg.kind == "idx" && l.Op == "IsFree" {
					continue
				}
			}
			t.do(c)
		}
	}
}

func intIP(fam int, from string, n uint64) string {
	c := ipCfg(from, from)
	x := new(big.Int).Add(c.co.first, new(big.Int).SetUint64(n-1))
	return ipText(nil, x, fam)
}
