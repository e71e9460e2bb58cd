package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/gtree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"
	"github.com/henderiw/idxtable/pkg/tree/tree16"
	"github.com/henderiw/idxtable/pkg/tree/tree32"
	"github.com/henderiw/idxtable/pkg/tree/tree64"
)

// ---- prefixes as bit strings

func mkID(w int, bits string) tree.ID {
	x := bitsNum(w, bits)
	switch w {
	case 16:
		return id16.NewID(uint16(x), uint8(len(bits)))
	case 32:
		return id32.NewID(uint32(x), uint8(len(bits)))
	}
	return id64.NewID(x, uint8(len(bits)))
}

// bitsNum is the number whose leading bits are the given ones, zeros after.
func bitsNum(w int, bits string) uint64 {
	if bits == "" {
		return 0
	}
	x, err := strconv.ParseUint(bits, 2, 64)
	if err != nil {
		fatal(err)
	}
	return x << uint(w-len(bits))
}

func numBits(w int, x uint64) string {
	s := strconv.FormatUint(x, 2)
	if len(s) < w {
		s = strings.Repeat("0", w-len(s)) + s
	}
	return s
}

// idBits names a prefix; one that is not canonical gets a name no specification state has.
func idBits(w int, id tree.ID) string {
	if id == nil {
		return "nil"
	}
	s := numBits(w, id.ID())
	l := int(id.Length())
	if len(s) != w || l > w || strings.Contains(s[l:], "1") {
		return fmt.Sprintf("bad:%d/%d", id.ID(), l)
	}
	return s[:l]
}

type tent struct {
	P string
	V Val
}

type treeRun struct {
	w, n   int
	r      *rand.Rand
	ts     map[int]gtree.GTree
	obs    map[int]map[string]string
	vals   map[int]map[string]Val
	univ   map[string]bool
	held   map[int]func() []M
	scrib  map[int]func()
	nextO  int
	nextH  int
	blind  bool
	dead   bool
	prefs  []string // prefixes this history likes to use
	seqNum int
}

func newGTree(w, n int) (gtree.GTree, error) {
	switch w {
	case 16:
		return tree16.New("t", uint8(n))
	case 32:
		return tree32.New("t", uint8(n))
	}
	return tree64.New("t", uint8(n))
}

func newTreeRun(w, n int, r *rand.Rand, prof string) *treeRun {
	t := &treeRun{w: w, n: n, r: r, ts: map[int]gtree.GTree{}, obs: map[int]map[string]string{}, vals: map[int]map[string]Val{},
		univ: map[string]bool{}, held: map[int]func() []M{}, scrib: map[int]func(){}, nextO: 2, nextH: 1}
	ev := M{"op": "new", "w": w, "n": n, "prof": prof}
	res := guarded(func() M {
		g, err := newGTree(w, n)
		if err != nil {
			fatal(err)
		}
		t.ts[1] = g
		t.obs[1], t.vals[1] = map[string]string{}, map[string]Val{}
		return M{"ok": true}
	})
	ev["r"] = res
	t.dead = isPanic(res)
	rec.emit(ev)
	return t
}

func (t *treeRun) ent(e tree.Entry) M {
	return M{"p": idBits(t.w, e.ID()), "v": Val{L: labelsToL(e.Labels())}}
}
func (t *treeRun) ents(es tree.Entries) []M {
	callerReads(es)
	out := []M{}
	for _, e := range es {
		if e == nil {
			out = append(out, M{"p": "nil", "v": Val{L: [][2]string{}}})
			continue
		}
		out = append(out, t.ent(e))
	}
	return out
}

func (t *treeRun) handles() []int {
	hs := []int{}
	for h := range t.ts {
		hs = append(hs, h)
	}
	sort.Ints(hs)
	return hs
}

// observe reads the contents of every tree; d lists what changed.
func (t *treeRun) observe() (d [][3]any, bad M) {
	d = [][3]any{}
	bad = guarded(func() M {
		for _, h := range t.handles() {
			g := t.ts[h]
			for _, e := range g.GetAll() {
				b := idBits(t.w, e.ID())
				if !strings.HasPrefix(b, "bad") {
					t.univ[b] = true
				}
			}
		}
		keys := make([]string, 0, len(t.univ))
		for p := range t.univ {
			keys = append(keys, p)
		}
		sort.Strings(keys)
		for _, h := range t.handles() {
			g := t.ts[h]
			set, del := [][2]any{}, []string{}
			for _, p := range keys {
				e, err := g.Get(provID(t.w, p))
				if err != nil {
					if _, ok := t.obs[h][p]; ok {
						delete(t.obs[h], p)
						delete(t.vals[h], p)
						del = append(del, p)
					}
					continue
				}
				v := Val{L: labelsToL(e.Labels())}
				if idBits(t.w, e.ID()) != p {
					v.D = "wrong id " + idBits(t.w, e.ID())
				}
				b, _ := json.Marshal(v)
				if t.obs[h][p] != string(b) {
					t.obs[h][p] = string(b)
					t.vals[h][p] = v
					set = append(set, [2]any{p, v})
				}
			}
			if len(set)+len(del) > 0 {
				d = append(d, [3]any{h, set, del})
			}
		}
		return M{}
	})
	return
}

type tcall struct {
	op   string
	o    int
	p    string
	v    Val
	sel  Sel
	text string
	kind string
	a, b string
	o2   int
	h    int
}

// do performs one call and records it; it returns the prefix a dynamic claim got.
func (t *treeRun) do(c tcall) string {
	if t.dead {
		return ""
	}
	ev := t.event(c)
	rec.begin(ev)
	res := guarded(func() M { return t.perform(c) })
	t.finish(ev, res, c)
	if p, ok := res["p"].(string); ok && c.op == "ClaimFree" && !strings.HasPrefix(p, "bad") {
		return p
	}
	return ""
}

// event describes a call.
func (t *treeRun) event(c tcall) M {
	ev := M{"op": c.op, "o": c.o, "h": c.h}
	switch c.op {
	case "Claim", "Update":
		ev["p"], ev["v"] = c.p, nv(c.v)
	case "Release", "Get", "Children", "Parents":
		ev["p"] = c.p
	case "ClaimFree":
		ev["v"] = nv(c.v)
	case "ClaimRange":
		ev["text"], ev["kind"], ev["a"], ev["b"], ev["v"] = c.text, c.kind, c.a, c.b, nv(c.v)
	case "ReleaseByLabel", "GetByLabel":
		ev["sel"] = c.sel
	case "Clone":
		ev["o2"] = c.o2
	}
	if c.op == "Claim" || c.op == "Update" || c.op == "Release" {
		t.univ[c.p] = true
	}
	return ev
}

// finish records the result and, unless the history is blind, what changed.
func (t *treeRun) finish(ev, res M, c tcall) {
	ev["r"] = res
	if isPanic(res) {
		t.dead = true
		ev["obs"] = false
	} else {
		t.watchAfter(ev, c)
	}
	rec.end()
	rec.emit(ev)
}

func (t *treeRun) watchAfter(ev M, c tcall) {
	if c.op == "Clone" {
		t.obs[c.o2], t.vals[c.o2] = map[string]string{}, map[string]Val{}
	}
	ev["obs"] = !t.blind
	if t.blind {
		return
	}
	d, bad := t.observe()
	if isPanic(bad) {
		ev["obs"] = false
		ev["r"] = bad
		t.dead = true
		return
	}
	ev["d"] = d
}

func (t *treeRun) look() {
	if t.dead {
		return
	}
	ev := M{"op": "obs", "h": 0, "obs": true}
	rec.begin(ev)
	_, bad := t.observe()
	if isPanic(bad) {
		ev["obs"], ev["r"] = false, bad
		t.dead = true
	} else {
		st := [][2]any{}
		for _, h := range t.handles() {
			keys := []string{}
			for p := range t.vals[h] {
				keys = append(keys, p)
			}
			sort.Strings(keys)
			l := [][2]any{}
			for _, p := range keys {
				l = append(l, [2]any{p, t.vals[h][p]})
			}
			st = append(st, [2]any{h, l})
		}
		ev["r"] = M{"ok": true, "st": st}
	}
	rec.end()
	rec.emit(ev)
}

func (t *treeRun) perform(c tcall) M {
	g := t.ts[c.o]
	hold := func(es tree.Entries) M {
		if c.h != 0 {
			t.held[c.h] = func() []M { return t.ents(es) }
			t.scrib[c.h] = func() {
				callerOverwrites(es)
				for i := range es {
					es[i] = tree.NewEntry(mkID(t.w, "1"), Val{L: [][2]string{{"scribble", "x"}}}.set())
				}
				es = append(es[:0], es...)
			}
		}
		return M{"es": t.ents(es)}
	}
	switch c.op {
	case "Claim":
		return okErr(g.ClaimID(provID(t.w, c.p), c.v.set()))
	case "Update":
		return okErr(g.Update(provID(t.w, c.p), c.v.set()))
	case "Release":
		return okErr(g.ReleaseID(provID(t.w, c.p)))
	case "Get":
		e, err := g.Get(provID(t.w, c.p))
		if err != nil {
			return M{"ok": false}
		}
		m := t.ent(e)
		m["ok"] = true
		return m
	case "ClaimFree":
		e, err := g.ClaimFree(c.v.set())
		if err != nil {
			return M{"ok": false}
		}
		m := t.ent(e)
		m["ok"] = true
		if p := m["p"].(string); !strings.HasPrefix(p, "bad") {
			t.univ[p] = true
		}
		return m
	case "ClaimRange":
		return okErr(g.ClaimRange(c.text, c.v.set()))
	case "ReleaseByLabel":
		return okErr(g.ReleaseByLabel(c.sel.selector()))
	case "Children":
		return hold(g.Children(provID(t.w, c.p)))
	case "Parents":
		return hold(g.Parents(provID(t.w, c.p)))
	case "GetByLabel":
		return hold(g.GetByLabel(c.sel.selector()))
	case "GetAll":
		return hold(g.GetAll())
	case "Iterate":
		es, fs := tree.Entries{}, tree.Entries{}
		it, jt := g.Iterate(), g.Iterate()
		two := t.r.Intn(2) == 0 // a second iterator in between
		for it.Next() && len(es) < 100000 {
			es = append(es, it.Entry())
			if two && t.r.Intn(3) > 0 && jt.Next() {
				fs = append(fs, jt.Entry())
			}
		}
		for two && jt.Next() && len(fs) < 100000 {
			fs = append(fs, jt.Entry())
		}
		if it.Next() || it.Next() {
			es = append(es, nil) // went on after its end
		}
		out := t.ents(es)
		if b := t.ents(fs); two && !reflect.DeepEqual(out, b) {
			out = append(append(out, b...), out...)
		}
		return M{"es": out}
	case "Size":
		return M{"n": g.Size()}
	case "Clone":
		t.ts[c.o2] = g.Clone()
		return M{"ok": true}
	}
	panic("driver: unknown op " + c.op)
}

func (t *treeRun) heldOp(op string, h int) {
	if t.dead || t.held[h] == nil {
		return
	}
	ev := M{"op": op, "o": 1, "h": h}
	rec.begin(ev)
	res := guarded(func() M {
		if op == "ReadHeld" {
			return M{"es": t.held[h]()}
		}
		t.scrib[h]()
		return M{"ok": true}
	})
	ev["r"] = res
	if op == "Scribble" {
		delete(t.held, h)
	}
	if isPanic(res) {
		t.dead, ev["obs"] = true, false
	} else {
		t.watchAfter(ev, tcall{})
	}
	rec.end()
	rec.emit(ev)
}

// ---- random histories

var treeFocus = map[string]map[string]int{
	"mix": {"Claim": 12, "Update": 4, "Release": 8, "Get": 4, "ClaimFree": 4, "ClaimRange": 3, "ReleaseByLabel": 2, "Children": 3, "Parents": 3,
		"GetByLabel": 2, "GetAll": 2, "Iterate": 1, "Size": 1, "Clone": 1, "held": 1},
	"map":    {"Claim": 14, "Update": 5, "Release": 11, "Get": 6, "ClaimRange": 1},
	"enum":   {"Claim": 12, "Release": 7, "Update": 2, "GetAll": 6, "Iterate": 6, "Size": 4, "ClaimRange": 1},
	"hier":   {"Claim": 12, "Release": 5, "Children": 10, "Parents": 10, "ClaimRange": 1},
	"free":   {"Claim": 6, "Release": 6, "ClaimFree": 14, "ClaimRange": 3, "ReleaseByLabel": 1},
	"range":  {"Claim": 4, "Release": 4, "ClaimRange": 12, "ReleaseByLabel": 1, "GetAll": 1},
	"bylab":  {"Claim": 10, "Update": 3, "Release": 2, "ClaimFree": 2, "ClaimRange": 1, "ReleaseByLabel": 8, "GetByLabel": 1},
	"labels": {"Claim": 10, "Update": 4, "Release": 4, "ClaimFree": 2, "ClaimRange": 1, "ReleaseByLabel": 1, "GetByLabel": 12},
	"clone":  {"Claim": 10, "Update": 4, "Release": 6, "ClaimFree": 4, "ClaimRange": 2, "ReleaseByLabel": 2, "Clone": 3, "GetAll": 2, "Get": 2, "Children": 1, "Parents": 1, "Size": 1, "Iterate": 1, "GetByLabel": 1},
	"held":   {"Claim": 9, "Update": 5, "Release": 7, "ClaimFree": 2, "ReleaseByLabel": 1, "GetAll": 5, "GetByLabel": 4, "Children": 4, "Parents": 4, "held": 16},
	"refuse": {"Claim": 10, "Update": 8, "Release": 6, "ClaimFree": 6, "ClaimRange": 10},
}

// treeSpaces lists id space lengths worth trying for a width.
func treeSpaces(w int) []int {
	out := []int{0, 1, 2, 3, 4, 8, 12, w - 1, w, w, w, 3, 4}
	if w > 16 {
		out = append(out, 16, 20, 24)
	}
	if w > 32 {
		out = append(out, 32, 33, 40, 63, 48)
	}
	return out
}

func randBits(r *rand.Rand, n int) string {
	b := make([]byte, n)
	mode := r.Intn(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = '0'
		case 1:
			b[i] = '1'
		default:
			b[i] = byte('0' + r.Intn(2))
		}
	}
	if n > 0 && mode < 2 {
		k := r.Intn(n)
		b[k] = byte('0' + r.Intn(2))
	}
	return string(b)
}

func (t *treeRun) space() string { return strings.Repeat("0", t.w-t.n) }

// randPrefix chooses a prefix of the space, often related to ones in use.
func (t *treeRun) randPrefix(o int) string {
	r := t.r
	cl := t.claimed(o)
	pickPref := func() string {
		if len(cl) > 0 && r.Intn(2) == 0 {
			return pick(r, cl)
		}
		if len(t.prefs) > 0 {
			return pick(r, t.prefs)
		}
		return t.space()
	}
	switch r.Intn(12) {
	case 0, 1, 2:
		return pickPref()
	case 3: // a cover of one
		p := pickPref()
		if len(p) > 0 {
			return p[:r.Intn(len(p)+1)]
		}
	case 4, 5: // something below one
		p := pickPref()
		if len(p) < t.w {
			k := 1 + r.Intn(min(4, t.w-len(p)))
			if r.Intn(5) == 0 {
				k = t.w - len(p)
			}
			return p + randBits(r, k)
		}
	case 6, 7: // a sibling
		p := pickPref()
		if len(p) > t.w-t.n {
			i := t.w - t.n + r.Intn(len(p)-(t.w-t.n))
			b := []byte(p)
			b[i] ^= 1
			return string(b)
		}
	case 8: // a full id
		return t.space() + randBits(r, t.n)
	case 9: // beyond the space
		if t.n < t.w {
			p := randBits(r, 1+r.Intn(t.w))
			if r.Intn(2) == 0 && t.n < t.w {
				b := []byte(t.space() + randBits(r, t.n))
				b[t.w-t.n-1] = '1'
				p = string(b)
			}
			return p
		}
	}
	p := t.space()
	return p + randBits(r, r.Intn(t.n+1))
}

func (t *treeRun) claimed(o int) []string {
	out := []string{}
	for p := range t.vals[o] {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

var malformed = []string{"", "5", "-", "a-b", "-5", "5-", "1-2-3", " 1-2", "1 - 2", "1-2 ", "0x1-0x2", "1.0-2", "99999999999999999999999-5",
	"0-99999999999999999999999", "1:5", "1..5", "--", "5-a", "1-2,4-5", "٣-5",
	"+1-+2", "1_0-2_0", "0b1-0b10", "0o1-0o7", "1e1-2e1", "1\x00-2", "1–2", "1-2\n", "\t1-2", "1h-2h", "1-0x2", "0X1-0XF", "1-2u", "+5-6", "5-+6", "0_1-2"}

func (t *treeRun) randRange() (c tcall) {
	r := t.r
	c.op = "ClaimRange"
	c.kind = "ok"
	if r.Intn(10) == 0 {
		c.kind = "malformed"
		c.text = pick(r, malformed)
		if t.w < 64 && r.Intn(3) == 0 {
			c.text = fmt.Sprintf("0-%d", uint64(1)<<uint(t.w)+uint64(r.Intn(9)))
		}
		if t.w < 64 && r.Intn(5) == 0 {
			c.text = fmt.Sprintf("%d-%d", uint64(1)<<uint(t.w), uint64(1)<<uint(t.w)+uint64(r.Intn(9)))
		}
		return
	}
	var a, b string
	switch r.Intn(6) {
	case 5: // nearly all of the space, or of half of it
		p := t.space()
		if t.n > 0 && r.Intn(3) == 0 {
			p += randBits(r, 1)
		}
		x, y := bitsNum(t.w, p+strings.Repeat("0", t.w-len(p))), bitsNum(t.w, p+strings.Repeat("1", t.w-len(p)))
		d, e := uint64(r.Intn(4)), uint64(r.Intn(4))
		if y-x > 16 {
			x, y = x+d, y-e
		}
		a, b = numBits(t.w, x), numBits(t.w, y)
	case 0, 1: // anywhere in the space
		a, b = t.space()+randBits(r, t.n), t.space()+randBits(r, t.n)
	case 2: // short
		a = t.space() + randBits(r, t.n)
		x := bitsNum(t.w, a)
		y := x + uint64(r.Intn(12))
		if y < x || t.w < 64 && y >= 1<<uint(t.w) {
			y = x
		}
		b = numBits(t.w, y)
	case 3: // exactly a prefix, or one id more or less
		p := t.space() + randBits(r, r.Intn(t.n+1))
		a, b = p+strings.Repeat("0", t.w-len(p)), p+strings.Repeat("1", t.w-len(p))
		if r.Intn(2) == 0 {
			x := bitsNum(t.w, a)
			if x > 0 {
				a = numBits(t.w, x-1)
			}
		}
		if r.Intn(3) == 0 {
			y := bitsNum(t.w, b)
			if y > 0 {
				b = numBits(t.w, y-1)
			}
		}
	case 4: // beyond the space, perhaps
		a, b = t.space()+randBits(r, t.n), randBits(r, t.w)
	}
	if a > b && r.Intn(5) > 0 {
		a, b = b, a
	}
	c.a, c.b = a, b
	c.text = fmt.Sprintf("%d-%d", bitsNum(t.w, a), bitsNum(t.w, b))
	return
}

func (t *treeRun) randSelFor(o int) Sel {
	cl := t.claimed(o)
	if len(cl) > 0 && t.r.Intn(2) == 0 {
		v := t.vals[o][pick(t.r, cl)]
		if len(v.L) > 0 {
			kv := pick(t.r, v.L)
			return Sel{T: "req", Rs: []Req{{K: kv[0], Op: "eq", Vs: []string{kv[1]}}}}
		}
	}
	return randSel(t.r)
}

// nest claims the prefixes of one id, from a short one to the id itself, and
// some of the prefixes beside them.
func (t *treeRun) nest() {
	r := t.r
	t.blind = true
	id := t.space() + randBits(r, t.n)
	var ps []string
	for l := r.Intn(3); l <= t.w; l++ {
		if r.Intn(12) > 0 {
			ps = append(ps, id[:l])
		}
		if l > 0 && r.Intn(3) == 0 {
			b := []byte(id[:l])
			b[l-1] ^= 1
			ps = append(ps, string(b))
		}
	}
	switch r.Intn(3) {
	case 0:
		r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	case 1:
		slices.Reverse(ps)
	}
	for _, p := range ps {
		t.do(tcall{op: "Claim", o: 1, p: p, v: randLabels(r)})
	}
	t.look()
	t.prefs = append(t.prefs, ps...)
	if len(ps) > 0 {
		t.do(tcall{op: "Parents", o: 1, p: id})
		t.do(tcall{op: "Children", o: 1, p: ps[r.Intn(len(ps))]})
		t.do(tcall{op: "GetAll", o: 1})
		t.do(tcall{op: "Iterate", o: 1})
		t.do(tcall{op: "Size", o: 1})
	}
}

func treeHistory(w, n int, r *rand.Rand, prof string, steps int) {
	t := newTreeRun(w, n, r, prof)
	if t.dead {
		return
	}
	t.blind = r.Intn(3) == 0
	for k := 0; k < 2+r.Intn(4); k++ {
		t.prefs = append(t.prefs, t.space()+randBits(r, r.Intn(n+1)))
	}
	if prof != "clone" && r.Intn(12) == 0 {
		t.nest()
	}
	focus, churnAt := treeFocus[prof], churnStep(r, steps)
	for k := 0; k < steps && !t.dead; k++ {
		if t.blind && k%13 == 12 {
			t.look()
		}
		if k == churnAt {
			t.randChurn()
			continue
		}
		op := weighted(r, focus)
		hs := t.handles()
		o := pick(r, hs)
		c := tcall{op: op, o: o}
		switch op {
		case "held":
			ks := []int{}
			for h := range t.held {
				ks = append(ks, h)
			}
			sort.Ints(ks)
			if len(ks) > 0 {
				t.heldOp(pick(r, []string{"ReadHeld", "ReadHeld", "ReadHeld", "Scribble"}), pick(r, ks))
			}
			continue
		case "Claim", "Update", "Release", "Get", "Children", "Parents":
			c.p, c.v = t.randPrefix(o), randLabels(r)
			if op == "Release" || op == "Get" || op == "Update" {
				if cl := t.claimed(o); len(cl) > 0 && r.Intn(2) == 0 {
					c.p = pick(r, cl)
					if op == "Update" || op == "Claim" {
						switch r.Intn(6) {
						case 0:
							if v, ok := alike(t.vals[o][c.p]); ok {
								c.v = v
							}
						case 1, 2:
							c.v = nearly(r, t.vals[o][c.p])
						}
					}
				}
			}
		case "ClaimFree":
			c.v = randLabels(r)
		case "ClaimRange":
			c = t.randRange()
			c.o, c.v = o, randLabels(r)
			if len(t.claimed(o)) > 150 {
				continue
			}
		case "ReleaseByLabel", "GetByLabel":
			c.sel = t.randSelFor(o)
		case "Clone":
			if len(hs) >= 3 {
				continue
			}
			c.o2 = t.nextO
			t.nextO++
		}
		if (prof == "held" || prof == "mix") && (op == "GetAll" || op == "GetByLabel" || op == "Children" || op == "Parents") {
			c.h = t.nextH
			t.nextH++
		}
		t.do(c)
	}
	t.look()
	for h := 1; h < t.nextH; h++ {
		t.heldOp("ReadHeld", h)
	}
}

// fillHistory drives dynamic claims until the space is exhausted, with
// prefixes of all sizes in the way, then frees some and goes on.
func fillHistory(w, n int, r *rand.Rand) {
	t := newTreeRun(w, n, r, "fill")
	if t.dead {
		return
	}
	t.blind = r.Intn(2) == 0
	for k := 0; k < r.Intn(5); k++ {
		p := t.space() + randBits(r, r.Intn(n+1))
		if k == 0 && r.Intn(3) == 0 && w > n {
			p = t.space()[:r.Intn(w-n+1)]
		}
		t.do(tcall{op: "Claim", o: 1, p: p, v: randLabels(r)})
	}
	if r.Intn(3) == 0 {
		c := t.randRange()
		c.o, c.v = 1, randLabels(r)
		t.do(c)
	}
	cnt := (1 << uint(min(n, 5))) + 2
	for k := 0; k < cnt; k++ {
		t.do(tcall{op: "ClaimFree", o: 1, v: randLabels(r)})
		if r.Intn(10) == 0 {
			if cl := t.claimed(1); len(cl) > 0 {
				t.do(tcall{op: "Release", o: 1, p: pick(r, cl)})
			}
		}
	}
	t.look()
	for k := 0; k < 4; k++ {
		if cl := t.claimed(1); len(cl) > 0 {
			t.do(tcall{op: "Release", o: 1, p: pick(r, cl)})
		}
		t.do(tcall{op: "ClaimFree", o: 1, v: randLabels(r)})
	}
	t.look()
}

// windowHistory claims every range of a window of ids at an interesting place,
// each in an empty tree.
func windowHistory(w, place, size int, r *rand.Rand) {
	n := w
	if place > 1 {
		n = pick(r, treeSpaces(w)[1:])
	}
	t := newTreeRun(w, n, r, "window")
	if t.dead {
		return
	}
	if n < 5 {
		size = 1 << uint(n)
	}
	last := uint64(1)<<uint(n-1) - 1 + uint64(1)<<uint(n-1)
	var base uint64
	switch {
	case place == 0 || place == 3:
		base = last - uint64(size-1)
	case place == 1: // around a power of two
		base = uint64(1)<<uint(5+r.Intn(n-5)) - uint64(1+r.Intn(size-1))
	default:
		base = bitsNum(w, t.space()+randBits(r, n))
		if base > last-uint64(size-1) || r.Intn(4) == 0 {
			base = 0
		}
	}
	for a := 0; a < size; a++ {
		for b := a; b < size; b++ {
			x, y := base+uint64(a), base+uint64(b)
			c := tcall{op: "ClaimRange", o: 1, kind: "ok", a: numBits(w, x), b: numBits(w, y), text: fmt.Sprintf("%d-%d", x, y), v: randLabels(r)}
			t.do(c)
			t.do(tcall{op: "ReleaseByLabel", o: 1, sel: Sel{T: "req", Rs: []Req{}}})
			if t.dead {
				return
			}
			if len(t.univ) > 60 {
				t.univ = map[string]bool{}
			}
		}
	}
}

func parseInts(s string) []int {
	out := []int{}
	for _, x := range strings.Split(s, ",") {
		v, err := strconv.Atoi(x)
		if err == nil {
			out = append(out, v)
		}
	}
	return out
}

func genTrees(widths, prof string, traces, steps int, seed int64) {
	ws := parseInts(widths)
	profs := strings.Split(prof, ",")
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < traces; i++ {
		w := ws[i%len(ws)]
		sp := treeSpaces(w)
		n := sp[(i/len(ws))%len(sp)]
		rr := rand.New(rand.NewSource(r.Int63()))
		pr := profs[rr.Intn(len(profs))]
		if pr == "window" {
			windowHistory(w, i/len(ws)%4, steps, rr)
			continue
		}
		if pr == "fill" {
			fillHistory(w, n, rr)
			continue
		}
		treeHistory(w, n, rr, pr, steps)
	}
}

// ---- scripted histories (behaviours of the specification) ------------------

type treeLine struct {
	Op   string `json:"op"`
	P    string `json:"p"`
	A    string `json:"a"`
	B    string `json:"b"`
	Bad  bool   `json:"bad"`
	V    string `json:"v"`
	Sel  string `json:"sel"`
	W    int    `json:"w"`
	N    int    `json:"n"`
	Undo bool   `json:"undo"` // release what the call claimed again
}

// embedding places a tree of a small width inside a real one: bit k of the
// small id becomes a block of bits of the real id.
type embedding struct {
	n    int      // space bits of the real tree
	lead string   // leading bits in front of everything
	pat  []string // block of a zero bit; a one bit has its first bit set
}

func (e *embedding) bits(p string) string {
	s := e.lead
	for i, b := range []byte(p) {
		if b == '1' {
			s += "1" + e.pat[i][1:]
		} else {
			s += e.pat[i]
		}
	}
	return s
}

func newEmbedding(r *rand.Rand, w, sw, sn int, sparse bool) *embedding {
	e := &embedding{}
	if !sparse {
		e.n = sn
		e.lead = strings.Repeat("0", w-sw)
		for i := 0; i < sw; i++ {
			e.pat = append(e.pat, "0")
		}
		return e
	}
	total := w
	if r.Intn(3) == 0 {
		total = sw + r.Intn(w-sw+1)
	}
	leadLen := 0
	if r.Intn(2) == 0 {
		leadLen = r.Intn(total - sw + 1)
	}
	lens := make([]int, sw)
	rest := total - leadLen - sw
	for i := range lens {
		lens[i] = 1
	}
	for rest > 0 {
		k := r.Intn(sw)
		x := 1 + r.Intn(rest)
		lens[k] += x
		rest -= x
	}
	if sn < sw {
		e.lead = strings.Repeat("0", leadLen)
	} else {
		e.lead = randBits(r, leadLen)
	}
	used := leadLen
	for i := 0; i < sw; i++ {
		if i == sw-sn {
			e.n = w - used
		}
		if i < sw-sn {
			e.pat = append(e.pat, strings.Repeat("0", lens[i]))
		} else {
			e.pat = append(e.pat, "0"+randBits(r, lens[i]-1))
		}
		used += lens[i]
	}
	if sn == sw {
		e.n = w
	}
	if sn == 0 {
		e.n = w - used
	}
	return e
}

func scriptedTrees(path, widths string, seed int64, sparse, clones bool) {
	lines := readTreeScript(path)
	for _, w := range parseInts(widths) {
		r := rand.New(rand.NewSource(seed + int64(w)))
		var t *treeRun
		var e *embedding
		cur, k := 1, 0
		for _, l := range lines {
			k++
			if l.Op == "new" {
				if t != nil {
					t.look()
				}
				e = newEmbedding(r, w, l.W, l.N, sparse)
				t = newTreeRun(w, e.n, r, "script")
				t.blind = r.Intn(4) == 0
				cur = 1
				continue
			}
			if clones && r.Intn(12) == 0 && t != nil && !t.dead && len(t.ts) < 4 {
				// go on with the clone or with the original; the other one must not notice
				t.do(tcall{op: "Clone", o: cur, o2: t.nextO})
				if r.Intn(2) == 0 {
					cur = t.nextO
				}
				t.nextO++
			}
			if t.blind && k%9 == 0 {
				t.look()
			}
			c := tcall{op: l.Op, o: cur, p: e.bits(l.P), v: Val{L: [][2]string{{"a", l.V}, {"s", strconv.Itoa(k % 7)}}},
				sel: Sel{T: "req", Rs: []Req{{K: "a", Op: "eq", Vs: []string{l.Sel}}}}}
			switch l.Op {
			case "Claim", "Update":
				// remember it for the observer even when refused
			case "ClaimRange":
				if l.Bad {
					c.kind, c.text = "malformed", pick(r, malformed)
				} else {
					a, b := e.bits(l.A), e.bits(l.B)
					c.kind, c.a, c.b = "ok", a+strings.Repeat("0", w-len(a)), b+strings.Repeat("1", w-len(b))
					c.text = fmt.Sprintf("%d-%d", bitsNum(w, c.a), bitsNum(w, c.b))
				}
			}
			got := t.do(c)
			if l.Undo && got != "" {
				t.do(tcall{op: "Release", o: cur, p: got})
			}
		}
		if t != nil {
			t.look()
		}
	}
}

func readLines(path string, f func([]byte)) {
	fd, err := os.Open(path)
	if err != nil {
		fatal(err)
	}
	defer fd.Close()
	sc := bufio.NewScanner(fd)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		f(sc.Bytes())
	}
}

func readTreeScript(path string) []treeLine {
	var lines []treeLine
	readLines(path, func(b []byte) {
		var l treeLine
		if err := json.Unmarshal(b, &l); err != nil {
			fatal(err)
		}
		lines = append(lines, l)
	})
	return lines
}

func unmarshal(b []byte, x any) {
	if err := json.Unmarshal(b, x); err != nil {
		fatal(err)
	}
}

func splitComma(s string) []string { return strings.Split(s, ",") }

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
