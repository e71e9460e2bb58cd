package main

// Histories with tens of thousands of entries: many calls of one kind are one
// line of the trace (op "Many"), and contents are read back with sampled or
// complete gets instead of after every call.

import (
	"math/rand"
	"strings"
	"time"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"
)

// ---- tables

func manyVal(vs []Val, x int) Val { return vs[x%len(vs)] }

func (t *tabRun) many(of string, ids []int, vs []Val) {
	if t.dead {
		return
	}
	if vs == nil {
		vs = []Val{}
	}
	ev := M{"op": "Many", "of": of, "ids": ids, "vs": vs, "h": 0, "obs": false}
	q := []any{}
	res := M{}
	for len(res) == 0 && len(q) < len(ids) {
		rec.begin(ev)
		res = guarded(func() M {
			for k := 0; k < 2000 && len(q) < len(ids); k++ {
				x := ids[len(q)]
				rec.beat()
				a := t.cfg.inArg(t.r, x)
				switch of {
				case "Claim":
					q = append(q, t.t.Claim(a, manyVal(vs, x)) == nil)
				case "Release":
					q = append(q, t.t.Release(a) == nil)
				case "Update":
					q = append(q, t.t.Update(a, manyVal(vs, x)) == nil)
				case "Has":
					q = append(q, t.t.Has(a))
				case "Get":
					e, err := t.t.Get(a)
					if err != nil {
						q = append(q, []M{})
					} else {
						q = append(q, entsM([]ent{e}))
					}
				}
			}
			return M{}
		})
		rec.end()
	}
	ev["r"] = M{"q": q}
	if isPanic(res) {
		ev["r"] = res
		t.dead = true
	}
	rec.emit(ev)
}

func some(r *rand.Rand, xs []int, n int) []int {
	out := []int{}
	for _, k := range r.Perm(len(xs)) {
		if len(out) == n {
			break
		}
		out = append(out, xs[k])
	}
	return out
}

func scaleTable(cfg tcfg, r *rand.Rand, focus map[string]int) {
	t := newTabRun(cfg, r, "scale")
	t.blind = true
	t.univ = map[int]bool{}
	n := cfg.co.n
	vs := []Val{}
	for k := 0; k < 7; k++ {
		v := nv(t.randVal())
		v.nilSet = false
		vs = append(vs, v)
	}
	all := r.Perm(n)
	if r.Intn(2) == 0 { // ascending
		for i := range all {
			all[i] = i
		}
	}
	holes := map[int]bool{}
	for k := r.Intn(6); k > 0; k-- {
		holes[pick(r, []int{r.Intn(n), n - 1 - r.Intn(30), 255, 256, 32767, 32768, 65535, n - 1})%n] = true
	}
	used := []int{}
	for _, x := range all {
		if !holes[x] {
			used = append(used, x)
		}
	}
	ids := func(k int) []int {
		out := some(r, used, k)
		for h := range holes {
			out = append(out, h)
		}
		seen, u := map[int]bool{}, []int{}
		for _, x := range append(out, 0, n-1, n/2, 255, 256, 32767, 32768, 65535%n) {
			if !seen[x] {
				seen[x] = true
				u = append(u, x)
			}
		}
		return u
	}
	if cfg.kind == "idx" && r.Intn(2) == 0 {
		a := uint64(r.Intn(3))
		if r.Intn(2) == 0 {
			t.do(call{op: "ClaimSize", size: uint64(n) - a, v: vs[0]})
		} else {
			t.do(call{op: "ClaimRange", a: cfg.inArg(r, int(a)), size: uint64(n) - a, v: vs[0]})
		}
	} else {
		t.many("Claim", used, vs)
	}
	calls := func(k int) {
		for ; k > 0 && !t.dead; k-- {
			op := weighted(r, focus)
			if cfg.kind != "idx" && idxOnly[op] || op == "held" || cfg.kind == "idx" && op == "GetByLabel" || cfg.kind == "ip" && op == "ClaimDyn" {
				continue
			}
			c := call{op: op, v: t.randVal(), sel: Sel{T: "req", Rs: []Req{}}}
			if r.Intn(2) == 0 {
				c.sel = randSel(r)
			}
			c.a = cfg.inArg(r, pick(r, ids(3)))
			c.size = uint64(pick(r, []int{1, 2, 3, 300, n, n - 1, 1 << 16}))
			t.do(c)
		}
	}
	calls(6)
	t.many("Get", ids(300), nil)
	rel := ids(pick(r, []int{3, 60, n / 2}))
	t.many("Release", rel, nil)
	calls(6)
	t.many("Update", ids(300), vs[3:])
	t.many("Has", ids(300), nil)
	calls(6)
	rest := []int{}
	for i := 0; i < n; i++ {
		rest = append(rest, i)
	}
	t.many("Claim", ids(n/3), vs[1:])
	calls(4)
	t.many("Get", rest, nil)
}

// stepN takes up to n steps of a kept iterator in one line.
func (t *tabRun) stepN(h, n int) {
	ho := t.held[h]
	if t.dead || ho == nil || ho.kind != "iter" {
		return
	}
	ev := M{"op": "StepN", "h": h, "obs": false}
	rec.begin(ev)
	q := []any{}
	res := guarded(func() M {
		for k := 0; k < n; k++ {
			m := ho.step()
			q = append(q, m)
			if m["more"] == false {
				break
			}
		}
		return M{}
	})
	rec.end()
	ev["r"] = M{"q": q}
	if isPanic(res) {
		ev["r"] = res
		t.dead = true
	}
	rec.emit(ev)
}

// scaleHeld keeps results and iterators of a table with many entries while the
// table changes.
func scaleHeld(cfg tcfg, r *rand.Rand) {
	t := newTabRun(cfg, r, "scale")
	t.blind = true
	t.univ = map[int]bool{}
	n := cfg.co.n
	vs := []Val{}
	for k := 0; k < 5; k++ {
		v := nv(t.randVal())
		v.nilSet = false
		vs = append(vs, v)
	}
	all := r.Perm(n)
	m := min(n, pick(r, []int{40, 300, 600, 1100, 2100, 4200}))
	t.many("Claim", all[:m], vs)
	any := Sel{T: "req", Rs: []Req{}}
	h := 0
	for round := 0; round < 3 && !t.dead; round++ {
		first := h + 1
		ops := []string{"GetAll", "GetByLabel"}
		if cfg.kind == "idx" {
			ops = []string{"GetAll", "Iterate", "IterateFree", "FindFreeSize", "Iterate", "ClaimSize"}
		}
		for _, op := range ops {
			h++
			c := call{op: op, h: h, sel: any, v: t.randVal(), size: uint64(pick(r, []int{3, 70, 300, 1000}))}
			if r.Intn(3) == 0 {
				c.sel = randSel(r)
			}
			t.do(c)
			if op == "Iterate" || op == "IterateFree" {
				t.stepN(h, r.Intn(40))
			}
		}
		t.many("Update", some(r, all[:m], m/2), vs[1:])
		t.many("Release", some(r, all[:m], r.Intn(m/2)), nil)
		t.many("Claim", some(r, all, n/3), vs[2:])
		for k := first; k <= h && !t.dead; k++ {
			t.heldOp("ReadHeld", k)
			t.stepN(k, pick(r, []int{1, 100, 100000}))
			if r.Intn(3) == 0 {
				t.heldOp("Scribble", k)
			}
		}
		t.many("Get", some(r, all, 200), nil)
	}
	for k := 1; k <= h && !t.dead; k++ {
		t.heldOp("ReadHeld", k)
		t.stepN(k, 100000)
	}
}

func genScaleHeld(kinds string, traces int, seed int64) {
	r := rand.New(rand.NewSource(seed))
	mk := map[string]func() tcfg{
		"idx": func() tcfg { return idxCfg(uint64(pick(r, []int{700, 5000}))) },
		"t16": func() tcfg { return numCfg(16, 60000, 65535) },
		"t32": func() tcfg { return numCfg(32, 1<<32-5000, 1<<32-1) },
		"t64": func() tcfg { return numCfg(64, m64-4999, m64) },
		"ip":  func() tcfg { return ipCfg("10.0.0.0", "10.0.15.159") },
	}
	ks := strings.Split(kinds, ",")
	for i := 0; i < traces; i++ {
		k := ks[(i+int(seed))%len(ks)]
		scaleHeld(mk[k](), rand.New(rand.NewSource(r.Int63())))
	}
}

func slowTable(cfg tcfg) bool {
	r := rand.New(rand.NewSource(1))
	return isSlow(func() {
		t := cfg.mk()
		for x := 0; x < 4000; x++ {
			t.Claim(cfg.inArg(r, x), Val{L: [][2]string{}})
		}
	}, 100*time.Millisecond)
}

func slowTree(w int) bool {
	r := rand.New(rand.NewSource(1))
	ps := manyPrefixes(r, "", w, 4000)
	return isSlow(func() {
		t, err := newGTree(w, w)
		if err != nil {
			return
		}
		for _, p := range ps {
			t.ClaimID(mkID(w, p), nil)
		}
	}, 300*time.Millisecond)
}

func slowMulti(w int) bool {
	r := rand.New(rand.NewSource(1))
	ps := manyPrefixes(r, "", w, 4000)
	f := map[int]tree.IsLeftBitSetFn{16: id16.IsLeftBitSet, 32: id32.IsLeftBitSet, 64: id64.IsLeftBitSet}[w]
	return isSlow(func() {
		t := tree.NewTree[mval]("t", f, uint8(w))
		for _, p := range ps {
			t.Add(mkID(w, p), mval{P: p}, nil)
		}
	}, 300*time.Millisecond)
}

func genScaleTables(kinds, prof string, traces int, seed int64) {
	hangSeconds = 60
	if prof == "held" {
		genScaleHeld(kinds, traces, seed)
		return
	}
	r := rand.New(rand.NewSource(seed))
	n := uint64(65536)
	m := n + 4000
	mk := map[string][]func() tcfg{
		"idx": {func() tcfg { return idxCfg(m) }, func() tcfg { return idxCfg(n) }, func() tcfg { return idxCfg(4097) }},
		"t16": {func() tcfg { return numCfg(16, 0, 65535) }, func() tcfg { return numCfg(16, 1, 65535) }, func() tcfg { return numCfg(16, 0, 65534) }},
		"t32": {func() tcfg { return numCfg(32, 1<<32-m, 1<<32-1) }, func() tcfg { return numCfg(32, 0, m-1) }},
		"t64": {func() tcfg { return numCfg(64, m64-m+1, m64) }, func() tcfg { return numCfg(64, 1<<32-n, 1<<32+4000) }},
		"ip":  {func() tcfg { return ipCfg("10.0.0.0", "10.1.15.159") }, func() tcfg { return ipCfg("2001:db8::ffff:ff00", "2001:db8::1:0:fff") }},
	}
	f := map[string]int{"FindFree": 3, "ClaimDyn": 3, "Size": 1}
	for k, x := range tabFocus[prof] {
		f[k] = x
	}
	small := map[string]func() tcfg{
		"idx": func() tcfg { return idxCfg(4097) },
		"t16": func() tcfg { return numCfg(16, 61000, 65535) },
		"t32": func() tcfg { return numCfg(32, 1<<32-4100, 1<<32-1) },
		"t64": func() tcfg { return numCfg(64, m64-4100, m64) },
		"ip":  func() tcfg { return ipCfg("10.0.0.0", "10.0.16.9") },
	}
	slow := slowTable(small["idx"]())
	ks := strings.Split(kinds, ",")
	for i := 0; i < traces; i++ {
		k := ks[(i+int(seed))%len(ks)]
		if c := mk[k]; c != nil {
			cfg := c[r.Intn(len(c))]()
			if slow || k != "idx" && slowTable(small[k]()) {
				cfg = small[k]()
			}
			scaleTable(cfg, rand.New(rand.NewSource(r.Int63())), f)
		}
	}
}

// ---- trees

func treeManyVal(vs []Val, p string) Val {
	n := len(p)
	b := func(k int) int {
		if k >= 0 && p[k] == '1' {
			return 1
		}
		return 0
	}
	return vs[(n+4*b(n-3)+2*b(n-2)+b(n-1))%len(vs)]
}

func (t *treeRun) many(of string, o int, ps []string, vs []Val) {
	if t.dead {
		return
	}
	if vs == nil {
		vs = []Val{}
	}
	ev := M{"op": "Many", "of": of, "o": o, "ps": ps, "vs": vs, "h": 0, "obs": false}
	q := []any{}
	res := M{}
	g := t.ts[o]
	step := 2000
	if of == "Get" || of == "Release" {
		step = 50 // each of them walks the tree
	}
	for len(res) == 0 && len(q) < len(ps) {
		rec.begin(ev)
		res = guarded(func() M {
			for k := 0; k < step && len(q) < len(ps); k++ {
				p := ps[len(q)]
				rec.beat()
				switch of {
				case "Claim":
					q = append(q, g.ClaimID(mkID(t.w, p), treeManyVal(vs, p).set()) == nil)
				case "Update":
					q = append(q, g.Update(mkID(t.w, p), treeManyVal(vs, p).set()) == nil)
				case "Release":
					q = append(q, g.ReleaseID(mkID(t.w, p)) == nil)
				case "Get":
					e, err := g.Get(mkID(t.w, p))
					if err != nil {
						q = append(q, []M{})
					} else {
						q = append(q, t.ents(tree.Entries{e}))
					}
				}
			}
			return M{}
		})
		rec.end()
	}
	ev["r"] = M{"q": q}
	if isPanic(res) {
		ev["r"] = res
		t.dead = true
	}
	rec.emit(ev)
}

// manyPrefixes makes n distinct prefixes of a space of 2^k ids, of all lengths
// but mostly long ones.
func manyPrefixes(r *rand.Rand, lead string, k, n int) []string {
	uni := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + r.Intn(2))
		}
		return string(b)
	}
	seen := map[string]bool{}
	out := []string{}
	add := func(p string) {
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	dense := lead
	if k > 16 {
		dense += uni(k - 16)
	}
	for tries := 0; len(out) < n && tries < 4*n; tries++ {
		switch r.Intn(8) {
		case 0:
			add(lead + uni(r.Intn(k+1)))
		case 1, 2:
			add(lead + uni(k))
		case 3:
			add(dense + uni(r.Intn(len(lead)+k-len(dense)+1)))
		default:
			add(dense + uni(len(lead)+k-len(dense)))
		}
	}
	return out
}

func scaleTree(w int, r *rand.Rand, size int, focus map[string]int) {
	n := w
	if r.Intn(2) == 0 {
		n = w - 1 - r.Intn(2)
	}
	t := newTreeRun(w, n, r, "scale")
	if t.dead {
		return
	}
	t.blind = true
	vs := []Val{}
	for k := 0; k < 5; k++ {
		v := nv(randLabels(r))
		v.nilSet = false
		vs = append(vs, v)
	}
	ps := manyPrefixes(r, t.space(), n, size)
	some := func(k int) []string {
		out := []string{}
		for _, i := range r.Perm(len(ps)) {
			if len(out) == k {
				break
			}
			out = append(out, ps[i])
		}
		return out
	}
	calls := func(k int) {
		for ; k > 0 && !t.dead; k-- {
			op := weighted(r, focus)
			c := tcall{op: op, o: 1, v: randLabels(r), sel: randSel(r), p: pick(r, ps)}
			switch op {
			case "held", "Clone":
				continue
			case "Children", "Parents":
				if r.Intn(2) == 0 {
					c.p = c.p[:len(c.p)-r.Intn(min(len(c.p)+1, 12))]
				}
			case "ClaimRange":
				c = t.randRange()
				c.o, c.v = 1, randLabels(r)
			}
			t.do(c)
		}
	}
	t.many("Claim", 1, ps, vs)
	calls(3)
	if len(focus) == 0 || r.Intn(3) == 0 {
		t.do(tcall{op: "Clone", o: 1, o2: 2})
	}
	t.many("Get", 1, some(40), nil)
	t.many("Release", 1, some(200), nil)
	calls(3)
	extra := manyPrefixes(r, t.space(), n, size/8)
	t.many("Claim", 1, extra, vs[2:])
	t.many("Update", 1, some(300), vs[1:])
	t.many("Get", 1, some(60), nil)
	calls(3)
	for _, o := range t.handles() {
		t.many("Get", o, append(some(30), t.space()), nil)
	}
}

// scaleTreeHeld keeps listings of a tree with many entries while it changes.
func scaleTreeHeld(w int, r *rand.Rand, size int) {
	t := newTreeRun(w, w, r, "scale")
	if t.dead {
		return
	}
	t.blind = true
	vs := []Val{}
	for k := 0; k < 5; k++ {
		v := nv(randLabels(r))
		v.nilSet = false
		vs = append(vs, v)
	}
	ps := manyPrefixes(r, "", w, size)
	t.many("Claim", 1, ps, vs)
	h := 0
	for round := 0; round < 3 && !t.dead; round++ {
		first := h + 1
		for _, op := range []string{"GetAll", "GetByLabel", "Children", "Parents"} {
			h++
			c := tcall{op: op, o: 1, h: h, sel: Sel{T: "req", Rs: []Req{}}, p: ""}
			if r.Intn(3) == 0 {
				c.sel = randSel(r)
			}
			if op == "Parents" {
				c.p = pick(r, ps)
			} else if r.Intn(2) == 0 {
				c.p = ps[0][:min(len(ps[0]), w-r.Intn(16))]
			}
			t.do(c)
		}
		pm := r.Perm(len(ps))
		sub := func(k int) []string {
			out := []string{}
			for _, i := range pm[:min(k, len(pm))] {
				out = append(out, ps[i])
			}
			return out
		}
		t.many("Update", 1, sub(size/2), vs[1:])
		t.many("Release", 1, sub(100), nil)
		t.many("Claim", 1, manyPrefixes(r, "", w, size/4), vs[2:])
		for k := first; k <= h && !t.dead; k++ {
			t.heldOp("ReadHeld", k)
			if r.Intn(3) == 0 {
				t.heldOp("Scribble", k)
			}
		}
		t.many("Get", 1, sub(60), nil)
	}
	for k := 1; k <= h && !t.dead; k++ {
		t.heldOp("ReadHeld", k)
	}
}

func genScaleTrees(widths, prof string, traces, size int, seed int64) {
	hangSeconds = 60
	ws := parseInts(widths)
	r := rand.New(rand.NewSource(seed))
	f := map[string]int{"Size": 1}
	for k, x := range treeFocus[prof] {
		f[k] = x
	}
	if prof == "clone" {
		f = map[string]int{}
	}
	if slowTree(ws[int(seed)%len(ws)]) {
		size /= 10
	}
	for i := 0; i < traces; i++ {
		if prof == "held" {
			scaleTreeHeld(ws[(i+int(seed))%len(ws)], rand.New(rand.NewSource(r.Int63())), size)
			continue
		}
		scaleTree(ws[(i+int(seed))%len(ws)], rand.New(rand.NewSource(r.Int63())), size, f)
	}
}

// ---- the generic tree

func (t *multiRun) line(ev M, steps int, step func(k int) any) {
	if t.dead {
		return
	}
	ev["obs"], ev["st"] = false, [][2]any{}
	q := []any{}
	res := M{}
	for len(res) == 0 && len(q) < steps {
		rec.begin(ev)
		res = guarded(func() M {
			for k := 0; k < 2000 && len(q) < steps; k++ {
				rec.beat()
				q = append(q, step(len(q)))
			}
			return M{}
		})
		rec.end()
	}
	ev["r"] = M{"q": q}
	if isPanic(res) {
		ev["r"] = res
		t.dead = true
	}
	rec.emit(ev)
}

func (t *multiRun) iterAll(o int) {
	if t.dead {
		return
	}
	ev := M{"op": "IterAll", "o": o, "obs": false, "st": [][2]any{}}
	rec.begin(ev)
	ev["r"] = guarded(func() M {
		ps, es := []string{}, [][]mval{}
		it := t.ts[o].Iterate()
		for it.Next() && len(ps) < 1000000 {
			l := append([]mval{}, it.Vals()...)
			p := "none"
			if len(l) > 0 {
				p = prefOf(l[0].P)
			}
			ps, es = append(ps, p), append(es, l)
		}
		return M{"ps": ps, "es": es}
	})
	t.dead = isPanic(ev["r"].(M))
	rec.end()
	rec.emit(ev)
}

func scaleMulti(w int, r *rand.Rand, size int) {
	t := newMultiRun(w, r, "scale")
	if t.dead {
		return
	}
	ps := manyPrefixes(r, "", w, size)
	some := func(k int) []string {
		out := []string{}
		for _, i := range r.Perm(len(ps)) {
			if len(out) == k {
				break
			}
			out = append(out, ps[i])
		}
		return out
	}
	d := 0
	add := func(o int, ids []string) {
		d++
		g, d := t.ts[o], d
		t.line(M{"op": "ManyAdd", "o": o, "ids": ids, "d": d}, len(ids), func(k int) any {
			b, n := g.Add(mkID(w, ids[k]), mval{P: ids[k] + ":c", D: d}, nil)
			return M{"grew": b, "n": n}
		})
	}
	addN := func(o int, id string, n int) {
		vs := []mval{}
		for k := 0; k < n; k++ {
			vs = append(vs, mval{P: id + ":v", D: k})
		}
		g := t.ts[o]
		t.line(M{"op": "AddN", "o": o, "id": id, "vs": vs}, n, func(k int) any {
			b, m := g.Add(mkID(w, id), vs[k], nil)
			return M{"grew": b, "n": m}
		})
	}
	del := func(o int, ids []string) {
		g := t.ts[o]
		t.line(M{"op": "ManyDelete", "o": o, "ids": ids}, len(ids), func(k int) any {
			return g.Delete(mkID(w, ids[k]), matcher("all"), mval{})
		})
	}
	add(1, ps)
	t.iterAll(1)
	big := some(3)
	most := 70000
	if size < 10000 { // see slowMulti
		most = 2000
	}
	addN(1, big[0], most)
	addN(1, big[1], 300)
	t.do(mcall{op: "Delete", o: 1, id: big[0], f: "le", v: mval{P: big[0] + ":v", D: 40000}}, false)
	del(1, some(size/3))
	t.do(mcall{op: "Clone", o: 1, o2: 2}, false)
	extra := manyPrefixes(r, "", w, size/6)
	add(2, extra)
	del(1, some(size/3))
	addN(2, big[2], 1000)
	add(1, extra)
	t.iterAll(1)
	t.iterAll(2)
}

func genScaleMulti(widths string, traces, size int, seed int64) {
	hangSeconds = 60
	ws := parseInts(widths)
	r := rand.New(rand.NewSource(seed))
	if slowMulti(ws[int(seed)%len(ws)]) {
		size /= 10
	}
	for i := 0; i < traces; i++ {
		scaleMulti(ws[(i+int(seed))%len(ws)], rand.New(rand.NewSource(r.Int63())), size)
	}
}
