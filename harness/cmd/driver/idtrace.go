package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"
	"k8s.io/apimachinery/pkg/labels"
)

// idSet and idBuilder are the sets and builders of any width.
type idSet interface {
	Ranges() []tree.Range
	IDs() []tree.ID
}
type idBuilder interface {
	AddId(tree.ID)
	RemoveId(tree.ID)
	AddRange(tree.Range)
	RemoveRange(tree.Range)
}

type idPkg struct {
	w       int
	newID   func(x uint64, l uint8) tree.ID
	rng     func(a, b uint64) tree.Range
	parse   func(string) (tree.Range, error)
	rangeOf func(tree.ID) tree.Range
	last    func(tree.ID) tree.ID
	leftBit func(uint64) bool
	builder func() idBuilder
	addSet  func(idBuilder, idSet)
	build   func(idBuilder) (idSet, error)
	remFree func(idSet, uint8) (tree.ID, idSet, bool)
}

var idPkgs = map[int]*idPkg{
	16: {16, func(x uint64, l uint8) tree.ID { return id16.NewID(uint16(x), l) },
		func(a, b uint64) tree.Range { return id16.RangeFrom(uint16(a), uint16(b)) },
		id16.ParseRange, id16.RangeOfID, id16.LastID, id16.IsLeftBitSet,
		func() idBuilder { return &id16.IDSetBuilder{} },
		func(b idBuilder, s idSet) {
			if s == nil {
				b.(*id16.IDSetBuilder).AddSet(nil)
			} else {
				b.(*id16.IDSetBuilder).AddSet(s.(*id16.IDSet))
			}
		},
		func(b idBuilder) (idSet, error) { return b.(*id16.IDSetBuilder).IPSet() },
		func(s idSet, k uint8) (tree.ID, idSet, bool) { return s.(*id16.IDSet).RemoveFreePrefix(k) }},
	32: {32, func(x uint64, l uint8) tree.ID { return id32.NewID(uint32(x), l) },
		func(a, b uint64) tree.Range { return id32.RangeFrom(uint32(a), uint32(b)) },
		id32.ParseRange, id32.RangeOfID, id32.LastID, id32.IsLeftBitSet,
		func() idBuilder { return &id32.IDSetBuilder{} },
		func(b idBuilder, s idSet) {
			if s == nil {
				b.(*id32.IDSetBuilder).AddSet(nil)
			} else {
				b.(*id32.IDSetBuilder).AddSet(s.(*id32.IDSet))
			}
		},
		func(b idBuilder) (idSet, error) { return b.(*id32.IDSetBuilder).IPSet() },
		func(s idSet, k uint8) (tree.ID, idSet, bool) { return s.(*id32.IDSet).RemoveFreePrefix(k) }},
	64: {64, func(x uint64, l uint8) tree.ID { return id64.NewID(x, l) },
		func(a, b uint64) tree.Range { return id64.RangeFrom(a, b) },
		id64.ParseRange, id64.RangeOfID, id64.LastID, id64.IsLeftBitSet,
		func() idBuilder { return &id64.IDSetBuilder{} },
		func(b idBuilder, s idSet) {
			if s == nil {
				b.(*id64.IDSetBuilder).AddSet(nil)
			} else {
				b.(*id64.IDSetBuilder).AddSet(s.(*id64.IDSet))
			}
		},
		func(b idBuilder) (idSet, error) { return b.(*id64.IDSetBuilder).IPSet() },
		func(s idSet, k uint8) (tree.ID, idSet, bool) { return s.(*id64.IDSet).RemoveFreePrefix(k) }},
}

func (p *idPkg) max() uint64 { return ^uint64(0) >> uint(64-p.w) }
func (p *idPkg) bits(x uint64) string {
	return numBits(p.w, x)
}

// raw is an id with all its bits.
func (p *idPkg) raw(id tree.ID) M {
	if id == nil {
		return M{"x": "nil", "l": -1}
	}
	return M{"x": p.bits(id.ID()), "l": int(id.Length())}
}

// num picks a number, boundary values first of all.
func (p *idPkg) num(r *rand.Rand) uint64 {
	m := p.max()
	switch r.Intn(9) {
	case 0:
		return uint64(r.Intn(4))
	case 1:
		return m - uint64(r.Intn(4))
	case 2, 3: // next to a power of two
		return (uint64(1)<<uint(r.Intn(p.w)) + uint64(r.Intn(3)) - 1) & m
	case 4: // a run of ones
		a, b := r.Intn(p.w+1), r.Intn(p.w+1)
		x := uint64(0)
		for i := a; i < b; i++ {
			x |= 1 << uint(i)
		}
		return x
	case 5: // next to the complement of a power of two
		return ^(uint64(1) << uint(r.Intn(p.w))) & m
	case 6:
		return uint64(r.Intn(300)) & m
	}
	return r.Uint64() & m
}

func (p *idPkg) length(r *rand.Rand) int {
	switch r.Intn(4) {
	case 0:
		return p.w
	case 1:
		return pick(r, []int{0, 1, 2, p.w - 1, p.w - 2, p.w / 2, p.w/2 + 1, p.w/2 - 1})
	}
	return r.Intn(p.w + 1)
}

// provID is mkID by every way the library hands an id out: made anew, copied,
// taken from a prefix list, masked out of a longer one, kept in an entry.
// A way that does not yield the id wanted is somebody else's defect.
func provID(w int, bits string) (id tree.ID) {
	id = mkID(w, bits)
	was := id
	if !provOn {
		return id
	}
	p := idPkgs[w]
	prov++
	defer func() {
		if recover() != nil || id == nil || id.ID() != was.ID() || id.Length() != was.Length() {
			id = was
		}
	}()
	switch prov % 5 {
	case 1:
		return id.Copy()
	case 2:
		if l := p.rangeOf(id).IDs(); len(l) == 1 {
			return l[0]
		}
	case 3:
		id, _ = p.last(id).Mask(uint8(len(bits)))
	case 4:
		return tree.NewEntry(id, nil).ID()
	}
	return id
}

var prov int
var provOn bool // one caller at a time

// provRange is RangeFrom by every way a range can be made.
func (p *idPkg) provRange(x, y uint64) (r tree.Range) {
	r = p.rng(x, y)
	prov++
	defer func() {
		if recover() != nil || r == nil || r.From().ID() != x || r.To().ID() != y {
			r = p.rng(x, y)
		}
	}()
	switch prov % 4 {
	case 1:
		if q, err := p.parse(fmt.Sprintf("%d-%d", x, y)); err == nil {
			return q
		}
	case 2:
		return p.rng(p.max()-y, p.max()-x).SetFrom(provID(p.w, p.bits(x))).SetTo(provID(p.w, p.bits(y)))
	case 3:
		return r.SetFrom(provID(p.w, p.bits(x)))
	}
	return r
}

type idRun struct {
	n int
}

func (t *idRun) call(ev M, f func() M) {
	if t.n%150 == 0 {
		rec.emit(M{"op": "new", "r": M{}})
	}
	t.n++
	rec.begin(ev)
	ev["r"] = guarded(f)
	rec.end()
	rec.emit(ev)
}

// on is call for answers about ids: the ids must stay what they were.
func (t *idRun) on(p *idPkg, ids []tree.ID, ev M, f func() M) {
	t.call(ev, func() M {
		was := make([][2]uint64, len(ids))
		for k, id := range ids {
			was[k] = [2]uint64{id.ID(), uint64(id.Length())}
		}
		m := f()
		for k, id := range ids {
			if was[k] != [2]uint64{id.ID(), uint64(id.Length())} {
				m["changed"] = k
			}
		}
		return m
	})
}

func (p *idPkg) prefs(ids []tree.ID) []string {
	out := []string{}
	for _, x := range ids {
		out = append(out, idBits(p.w, x))
	}
	return out
}

func (t *idRun) rangeIDs(p *idPkg, a, b uint64, app bool) {
	r := p.provRange(a, b)
	t.on(p, []tree.ID{r.From(), r.To()}, M{"op": "RangeIDs", "w": p.w, "a": p.bits(a), "b": p.bits(b)}, func() M {
		if app {
			dst := make([]tree.ID, 1, 1+int(a%7))
			dst[0] = p.newID(0, 3)
			out := r.AppendIDs(dst)
			if len(out) == 0 || out[0].Length() != 3 {
				return M{"ids": []string{"prefix of the slice lost"}}
			}
			return M{"ids": p.prefs(out[1:])}
		}
		return M{"ids": p.prefs(r.IDs())}
	})
}

func (t *idRun) rangeOfID(p *idPkg, bits string) {
	id := provID(p.w, bits)
	t.on(p, []tree.ID{id}, M{"op": "RangeOfID", "w": p.w, "p": bits}, func() M {
		r := p.rangeOf(id)
		l := p.last(id)
		return M{"a": p.bits(r.From().ID()), "b": p.bits(r.To().ID()), "la": int(r.From().Length()), "lb": int(r.To().Length()),
			"last": p.bits(l.ID()), "valid": r.IsValid()}
	})
}

func (t *idRun) mask(p *idPkg, x uint64, l, k int) {
	id := p.newID(x, uint8(l))
	t.on(p, []tree.ID{id}, M{"op": "Mask", "w": p.w, "i": p.raw(id), "k": k}, func() M {
		m, err := id.Mask(uint8(k))
		if err != nil {
			return M{"ok": false}
		}
		return M{"ok": true, "i": p.raw(m)}
	})
}

func (t *idRun) parse(p *idPkg, text, kind string, a, b uint64) {
	t.call(M{"op": "Parse", "w": p.w, "text": text, "kind": kind, "a": p.bits(a), "b": p.bits(b), "canon": fmt.Sprintf("%d-%d", a, b)}, func() M {
		r, err := p.parse(text)
		if err != nil {
			return M{"ok": false}
		}
		return M{"ok": true, "a": p.bits(r.From().ID()), "b": p.bits(r.To().ID()), "la": int(r.From().Length()), "lb": int(r.To().Length()),
			"text": r.String(), "valid": r.IsValid()}
	})
}

func (t *idRun) unary(p *idPkg, x uint64, l int) {
	id := p.newID(x, uint8(l))
	i := p.raw(id)
	t.on(p, []tree.ID{id}, M{"op": "Next", "w": p.w, "i": i}, func() M { return M{"i": p.raw(id.Next())} })
	t.on(p, []tree.ID{id}, M{"op": "Prev", "w": p.w, "i": i}, func() M { return M{"i": p.raw(id.Prev())} })
	t.on(p, []tree.ID{id}, M{"op": "LeftBit", "w": p.w, "i": i}, func() M { return M{"b1": id.IsLeftBitSet(), "b2": p.leftBit(id.ID())} })
}

func (t *idRun) text(p *idPkg, x uint64, l int) {
	id := p.newID(x, uint8(l))
	t.on(p, []tree.ID{id}, M{"op": "Text", "w": p.w, "i": p.raw(id), "canon": fmt.Sprintf("%d/%d", x, l)}, func() M { return M{"text": id.String(), "i": p.raw(id.Copy())} })
}

func (t *idRun) binary(p *idPkg, x uint64, l int, y uint64, k int) {
	a, b := p.newID(x, uint8(l)), p.newID(y, uint8(k))
	t.on(p, []tree.ID{a, b}, M{"op": "Compare", "w": p.w, "i": p.raw(a), "j": p.raw(b)}, func() M { return M{"n": a.Compare(b), "less": a.Less(b)} })
	t.on(p, []tree.ID{a}, M{"op": "Matches", "w": p.w, "i": p.raw(a), "y": p.bits(y)}, func() M { return M{"n": int(a.Matches(y))} })
}

func (t *idRun) overlaps(p *idPkg, b1, b2 string) {
	a, b := provID(p.w, b1), provID(p.w, b2)
	t.on(p, []tree.ID{a, b}, M{"op": "Overlaps", "w": p.w, "i": p.raw(a), "j": p.raw(b)}, func() M { return M{"b": a.Overlaps(b), "b2": b.Overlaps(a)} })
}

func (t *idRun) relate(p *idPkg, a, b, c, d uint64) {
	rg := func(x, y uint64) M { return M{"a": p.bits(x), "b": p.bits(y)} }
	r, o := p.rng(a, b), p.rng(c, d)
	t.on(p, []tree.ID{r.From(), r.To(), o.From(), o.To()}, M{"op": "Relate", "w": p.w, "q": rg(a, b), "o": rg(c, d)}, func() M {
		return M{"before": r.EntirelyBefore(o), "covered": r.CoveredBy(o), "middle": r.InMiddleOf(o), "start": r.OverlapsStartOf(o),
			"end": r.OverlapsEndOf(o), "less": r.Less(o)}
	})
}

// labelSets for entries: absent, empty, alike in text and different in content.
func entryLabels(r *rand.Rand) labels.Set {
	switch r.Intn(8) {
	case 0:
		return nil
	case 1:
		return labels.Set{}
	case 2:
		return pick(r, []labels.Set{{"a": "x,b=y"}, {"a": "x", "b": "y"}, {"a": "x,b", "b": "y"}, {"a=x,b": "y"}, {"a": "=x"}, {"a=": "x"}})
	}
	l := labels.Set{}
	for _, k := range []string{"a", "b", "c", ""} {
		if r.Intn(2) == 0 {
			l[k] = pick(r, []string{"x", "y", "", "X"})
		}
	}
	return l
}

func (p *idPkg) entries(t *idRun, r *rand.Rand) {
	x, l := p.num(r), p.length(r)
	y, k := x, l
	if r.Intn(3) == 0 {
		y = pick(r, []uint64{p.num(r), x ^ 1, x ^ 1<<uint(p.w-1), x ^ 1<<uint(r.Intn(p.w))})
	}
	if r.Intn(3) == 0 {
		k = p.length(r)
	}
	la, lb := entryLabels(r), entryLabels(r)
	if r.Intn(2) == 0 {
		lb = labels.Set{}
		for a, b := range la {
			lb[a] = b
		}
		if r.Intn(4) == 0 && len(lb) > 0 {
			for a := range lb {
				if r.Intn(2) == 0 {
					delete(lb, a)
				} else {
					lb[a] += "z"
				}
				break
			}
		}
	}
	a, b := p.newID(x, uint8(l)), p.newID(y, uint8(k))
	ent := func(e tree.Entry) M { return M{"i": p.raw(e.ID()), "v": labelsToL(e.Labels())} }
	e, f := tree.NewEntry(a, la), tree.NewEntry(b, lb)
	t.on(p, []tree.ID{a}, M{"op": "Entry", "w": p.w, "i": p.raw(a), "v": labelsToL(la)}, func() M {
		c := e.ID().Copy()
		return M{"e": ent(tree.NewEntry(a, la)), "again": ent(e), "copy": p.raw(c), "eq": e.Equal(tree.NewEntry(c, la))}
	})
	t.on(p, []tree.ID{a, b, e.ID(), f.ID()}, M{"op": "EntryEq", "w": p.w, "i": p.raw(a), "j": p.raw(b), "v": labelsToL(la), "u": labelsToL(lb)}, func() M {
		return M{"b": e.Equal(f), "b2": f.Equal(e)}
	})
	m := r.Intn(p.w + 1)
	n := r.Intn(p.w - m + 1)
	t.call(M{"op": "Merge", "w": p.w, "x": p.bits(x), "l": m, "y": p.bits(y), "k": n}, func() M {
		var z uint64
		var q uint8
		switch p.w {
		case 16:
			v, c := tree.MergeID16(uint16(x), uint8(m), uint16(y), uint8(n))
			z, q = uint64(v), c
		case 32:
			v, c := tree.MergeID32(uint32(x), uint8(m), uint32(y), uint8(n))
			z, q = uint64(v), c
		default:
			z, q = tree.MergeID64(x, uint8(m), y, uint8(n))
		}
		return M{"i": M{"x": p.bits(z), "l": int(q)}}
	})
}

func genIds(widths, prof string, traces int, seed int64) {
	r := rand.New(rand.NewSource(seed))
	t := &idRun{}
	for _, w := range parseInts(widths) {
		p := idPkgs[w]
		m := p.max()
		for _, pr := range splitComma(prof) {
			switch pr {
			case "small": // every pair of a small window, at both ends and across the middle of the space
				n := uint64(traces)
				for _, base := range []uint64{0, m - n + 1, m/2 - n/2, 1 << uint(w/2-1), uint64(1)<<uint(w/2) - n/2} {
					for a := uint64(0); a < n; a++ {
						for b := a; b < n; b++ {
							t.rangeIDs(p, base+a, base+b, (a+b)%2 == 0)
						}
					}
				}
				for l := 0; l <= w; l++ {
					for _, b := range []string{"0", "1", "01", "10"} {
						t.rangeOfID(p, strings.Repeat(b, w)[:l])
					}
					for _, x := range []uint64{0, m, m/3 + 1, m / 3 * 2} {
						t.mask(p, x, w, l)
						t.mask(p, x, l, l)
					}
				}
				for _, l := range []int{w + 1, w + 2, w + 7, 128, 200, 255} {
					t.mask(p, m, w, l)
				}
				for _, a := range []uint64{0, 1, 9, 10, 11, 99, 100, m / 2, m - 1, m} {
					for _, b := range []uint64{0, 1, 9, 10, 99, m / 2, m} {
						t.parse(p, fmt.Sprintf("%d-%d", a, b), "ok", a, b)
					}
				}
				for _, s := range malformed {
					t.parse(p, s, "malformed", 0, 0)
				}
			case "unary": // every boundary value
				for l := 0; l <= w; l += 1 + w/9 {
					for _, x := range []uint64{0, 1, 2, 3, m, m - 1, m - 2, m / 2, m/2 + 1, m/2 - 1} {
						t.unary(p, x, l)
					}
				}
				for k := 0; k < w; k++ {
					x := uint64(1) << uint(k)
					t.unary(p, x, w)
					t.unary(p, x-1, w)
					t.unary(p, m-x, w)
				}
			case "cover": // I01, random
				for k := 0; k < traces; k++ {
					a, b := p.num(r), p.num(r)
					if r.Intn(3) == 0 {
						b = a + uint64(r.Intn(40))
						if b < a || b > m {
							b = m
						}
					}
					if a > b {
						a, b = b, a
					}
					t.rangeIDs(p, a, b, r.Intn(2) == 0)
					l := p.length(r)
					t.rangeOfID(p, p.bits(p.num(r))[:l])
					t.mask(p, p.num(r), p.length(r), p.length(r))
					x := p.num(r)
					id := p.newID(x, uint8(l))
					t.call(M{"op": "Masked", "w": w, "i": p.raw(id)}, func() M { return M{"i": p.raw(id.Masked())} })
					c, d := p.num(r), p.num(r)
					switch r.Intn(6) {
					case 0:
						t.parse(p, fmt.Sprintf("%0*d-%0*d", r.Intn(25), c, r.Intn(25), d), "ok", c, d)
					case 1:
						s := []byte(fmt.Sprintf("%d-%d", c, d))
						s[r.Intn(len(s))] = "x +.,:/_"[r.Intn(8)]
						t.parse(p, string(s), "malformed", 0, 0)
					case 2:
						if w < 64 {
							t.parse(p, fmt.Sprintf("%d-%d", c, m+1+d), "malformed", 0, 0)
							t.parse(p, fmt.Sprintf("%d-%d", m+1+c, d), "malformed", 0, 0)
						} else {
							t.parse(p, fmt.Sprintf("%d-1%020d", c, d), "malformed", 0, 0)
						}
					default:
						t.parse(p, fmt.Sprintf("%d-%d", c, d), "ok", c, d)
					}
				}
			case "arith": // I03, random
				for k := 0; k < traces; k++ {
					x, l := p.num(r), p.length(r)
					t.unary(p, x, l)
					t.text(p, x, l)
					y := p.num(r)
					if r.Intn(2) == 0 {
						y = x ^ (uint64(1) << uint(r.Intn(w)))
					}
					if r.Intn(8) == 0 {
						y = x
					}
					t.binary(p, x, l, y, p.length(r))
					t.binary(p, x, l, y, l)
					s := r.Intn(l + 1)
					id := p.newID(x, uint8(l))
					t.on(p, []tree.ID{id}, M{"op": "ShiftLeft", "w": w, "i": p.raw(id), "k": s}, func() M { return M{"i": p.raw(id.ShiftLeft(uint8(s)))} })
					b1 := p.bits(x)[:l]
					b2 := p.bits(y)[:p.length(r)]
					t.overlaps(p, b1, b2)
					if len(b1) > 0 {
						c := []byte(b1)
						c[len(c)-1] ^= 1
						t.overlaps(p, b1, string(c))
						t.overlaps(p, b1, b1[:r.Intn(len(b1)+1)])
					}
				}
			case "entries": // I04
				for k := 0; k < traces; k++ {
					p.entries(t, r)
				}
			case "relate": // I03, ranges: small windows exhaustively, then random
				for _, base := range []uint64{0, m - 3, m/2 - 1} {
					for q := 0; q < 256; q++ {
						a, b, c, d := base+uint64(q&3), base+uint64(q>>2&3), base+uint64(q>>4&3), base+uint64(q>>6&3)
						if a <= b && c <= d {
							t.relate(p, a, b, c, d)
						}
					}
				}
				for k := 0; k < traces; k++ {
					v := []uint64{p.num(r), p.num(r), p.num(r), p.num(r)}
					if r.Intn(2) == 0 {
						v[r.Intn(4)] = v[r.Intn(4)]
					}
					if v[0] > v[1] {
						v[0], v[1] = v[1], v[0]
					}
					if v[2] > v[3] {
						v[2], v[3] = v[3], v[2]
					}
					t.relate(p, v[0], v[1], v[2], v[3])
					a, b, c := p.num(r), p.num(r), p.num(r)
					rg, cc := p.rng(a, b), p.newID(c, uint8(w))
					t.on(p, []tree.ID{rg.From(), rg.To(), cc}, M{"op": "Bounds", "w": w, "a": p.bits(a), "b": p.bits(b), "c": p.bits(c)}, func() M {
						return M{"valid": rg.IsValid(), "a": p.bits(rg.From().ID()), "b": p.bits(rg.To().ID()),
							"sa": p.bits(rg.SetFrom(cc).From().ID()), "sb": p.bits(rg.SetTo(cc).To().ID()), "zero": rg.IsZero()}
					})
				}
			}
		}
	}
}

// ---- sets

func (p *idPkg) setAns(s idSet) M {
	rs := [][2]string{}
	for _, x := range s.Ranges() {
		rs = append(rs, [2]string{p.bits(x.From().ID()), p.bits(x.To().ID())})
	}
	return M{"ranges": rs, "ids": p.prefs(s.IDs())}
}

type setRun struct {
	p    *idPkg
	bs   map[int]idBuilder
	ss   map[int]idSet
	n    int
	dead bool
}

func newSetRun(p *idPkg) *setRun {
	rec.emit(M{"op": "new", "w": p.w, "r": M{}})
	return &setRun{p: p, bs: map[int]idBuilder{}, ss: map[int]idSet{}, n: 1}
}

func (t *setRun) call(ev M, f func() M) {
	if t.dead {
		return
	}
	rec.begin(ev)
	ev["r"] = guarded(f)
	t.dead = isPanic(ev["r"].(M))
	rec.end()
	rec.emit(ev)
}

func (t *setRun) b(k int) idBuilder {
	if t.bs[k] == nil {
		t.bs[k] = t.p.builder()
	}
	return t.bs[k]
}

func (t *setRun) id(op string, b int, bits string) {
	t.call(M{"op": op, "b": b, "p": bits}, func() M {
		if op == "AddId" {
			t.b(b).AddId(provID(t.p.w, bits))
		} else {
			t.b(b).RemoveId(provID(t.p.w, bits))
		}
		return M{}
	})
}
func (t *setRun) rng(op string, b int, x, y uint64) {
	t.call(M{"op": op, "b": b, "x": t.p.bits(x), "y": t.p.bits(y)}, func() M {
		if op == "AddRange" {
			t.b(b).AddRange(t.p.provRange(x, y))
		} else {
			t.b(b).RemoveRange(t.p.provRange(x, y))
		}
		return M{}
	})
}
func (t *setRun) addSet(b, s int) {
	t.call(M{"op": "AddSet", "b": b, "s": s}, func() M { t.p.addSet(t.b(b), t.ss[s]); return M{} })
}
func (t *setRun) build(b int) {
	s := t.n
	t.n++
	t.call(M{"op": "Build", "b": b, "s": s}, func() M {
		x, err := t.p.build(t.b(b))
		t.ss[s] = x
		m := t.p.setAns(x)
		m["ok"] = err == nil
		return m
	})
}
func (t *setRun) read(s int) {
	t.call(M{"op": "Read", "s": s}, func() M { return t.p.setAns(t.ss[s]) })
}
func (t *setRun) remFree(s, k int) {
	s2 := t.n
	t.n++
	t.call(M{"op": "RemoveFree", "s": s, "s2": s2, "k": k}, func() M {
		id, x, ok := t.p.remFree(t.ss[s], uint8(k))
		m := t.p.setAns(x)
		m["ok"] = ok
		m["p"] = ""
		if ok {
			t.ss[s2] = x
			m["p"] = idBits(t.p.w, id)
		}
		return m
	})
}

func setHistory(p *idPkg, r *rand.Rand, steps int, prof string) {
	t := newSetRun(p)
	m := p.max()
	// a few points to place bounds at and next to
	var base []uint64
	window := r.Intn(3) == 0
	if window {
		b := pick(r, []uint64{0, m - 15, m/2 - 7, uint64(1) << uint(p.w/2)})
		for k := uint64(0); k < 16; k++ {
			base = append(base, b+k)
		}
	} else {
		for k := 0; k < 3+r.Intn(5); k++ {
			base = append(base, p.num(r))
		}
		base = append(base, 0, m)
	}
	pt := func() uint64 {
		x := pick(r, base)
		if !window {
			switch r.Intn(5) {
			case 0:
				if x < m {
					x++
				}
			case 1:
				if x > 0 {
					x--
				}
			}
		}
		return x
	}
	pfx := func() string {
		s := p.bits(pt())
		if r.Intn(2) == 0 {
			return s
		}
		if window || r.Intn(2) == 0 {
			return s[:p.w-r.Intn(4)]
		}
		return s[:r.Intn(p.w+1)]
	}
	for k := 0; k < steps && !t.dead; k++ {
		b := 1
		if r.Intn(5) == 0 {
			b = 2
		}
		ids := []int{}
		for s := 1; s < t.n; s++ {
			if t.ss[s] != nil {
				ids = append(ids, s)
			}
		}
		x := r.Intn(100)
		if prof == "free" && r.Intn(2) == 0 {
			x = 80 + r.Intn(20)
		}
		switch {
		case x < 10:
			t.id("AddId", b, pfx())
		case x < 22:
			t.id("RemoveId", b, pfx())
		case x < 46 || x < 70:
			a, c := pt(), pt()
			if a > c && r.Intn(25) > 0 {
				a, c = c, a
			}
			if x < 46 {
				t.rng("AddRange", b, a, c)
			} else {
				t.rng("RemoveRange", b, a, c)
			}
		case x < 75:
			if len(ids) > 0 && r.Intn(6) > 0 {
				t.addSet(b, pick(r, ids))
			} else {
				t.addSet(b, 0)
			}
		case x < 88:
			t.build(b)
		case x < 91:
			if len(ids) > 0 {
				t.read(pick(r, ids))
			}
		default:
			if len(ids) > 0 {
				kk := p.w - r.Intn(5)
				if r.Intn(3) == 0 {
					kk = r.Intn(p.w + 1)
				}
				t.remFree(pick(r, ids), kk)
			}
		}
	}
	t.build(1)
	t.build(2)
	for s := 1; s < t.n; s++ {
		if t.ss[s] != nil {
			t.read(s)
		}
	}
}

// pairHistories: every combination of a few ranges in a small window, added and removed.
func pairHistories(p *idPkg, r *rand.Rand, count int) {
	m := p.max()
	for k := 0; k < count; k++ {
		t := newSetRun(p)
		b := pick(r, []uint64{0, m - 7, m/2 - 3})
		for q := 0; q < 6; q++ {
			x, y := uint64(r.Intn(8)), uint64(r.Intn(8))
			if x > y {
				x, y = y, x
			}
			t.rng(pick(r, []string{"AddRange", "RemoveRange", "AddRange"}), 1, b+x, b+y)
			if r.Intn(4) == 0 {
				t.build(1)
			}
		}
		t.build(1)
		t.remFree(t.n-1, p.w-r.Intn(4))
	}
}

// manyHistory: hundreds of short ranges and prefixes in one builder, added and
// removed in any order, sometimes all added first.
func manyHistory(p *idPkg, r *rand.Rand, steps int) {
	t := newSetRun(p)
	m := p.max()
	first := r.Intn(2) == 0
	var far []uint64
	for k := 0; k < 8; k++ {
		far = append(far, p.num(r)&^255)
	}
	at := func() uint64 {
		x := pick(r, far)
		return x + uint64(r.Intn(256))
	}
	for k := 0; k < steps; k++ {
		rem := r.Intn(2) == 0
		if first {
			rem = k > steps*2/3
		}
		x := at()
		if r.Intn(3) == 0 {
			op := "AddId"
			if rem {
				op = "RemoveId"
			}
			t.id(op, 1, p.bits(x)[:p.w-r.Intn(5)])
			continue
		}
		op, y := "AddRange", x
		if rem {
			op = "RemoveRange"
		}
		if d := uint64(r.Intn(24)); m-y >= d {
			y += d
		}
		t.rng(op, 1, x, y)
		if k%97 == 96 {
			t.build(1)
			t.addSet(2, t.n-1)
		}
	}
	t.build(1)
	t.addSet(2, t.n-1)
	t.build(2)
	for k := 0; k < 4; k++ {
		t.remFree(t.n-1, p.w-r.Intn(6))
	}
}

func genIdSets(widths, prof string, traces, steps int, seed int64) {
	ws := parseInts(widths)
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < traces; i++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		p := idPkgs[ws[i%len(ws)]]
		pr := pick(rr, splitComma(prof))
		if pr == "pairs" {
			pairHistories(p, rr, 3)
			continue
		}
		if pr == "many" {
			manyHistory(p, rr, steps)
			continue
		}
		setHistory(p, rr, steps, pr)
	}
}

// scripted builder histories (behaviours of MC_IdSet): bounds of the small
// space are placed in the real one.
type setLine struct {
	Op   string
	X, Y int
	K    int

	In, Out [][2]int
	N       int
}

func scriptedSets(path, widths string, seed int64) {
	var lines []setLine
	readLines(path, func(b []byte) {
		var l setLine
		unmarshal(b, &l)
		lines = append(lines, l)
	})
	for _, w := range parseInts(widths) {
		p := idPkgs[w]
		r := rand.New(rand.NewSource(seed + int64(w)))
		var t *setRun
		var cuts []uint64 // small id k stands for cuts[k]..cuts[k+1]-1
		for _, l := range lines {
			switch l.Op {
			case "new":
				t = newSetRun(p)
				cuts = smallCuts(p, r, l.K)
			case "AddRange", "RemoveRange":
				t.rng(l.Op, 1, cuts[l.X], cuts[l.Y+1]-1)
			case "Build":
				t.build(1)
			case "lists": // of MC_Merge: two lists of ranges over the cells 1 to N, added and removed
				if t == nil || t.n > 8 || t.dead {
					t = newSetRun(p)
				}
				b := t.n
				cuts = smallCuts(p, r, l.N)
				rng := func(op string, q [2]int) { t.rng(op, b, cuts[q[0]-1], cuts[q[1]]-1) }
				in, out := l.In, l.Out
				switch {
				case len(out) == 0 && r.Intn(2) == 0: // the list is removed from everything
					in, out = [][2]int{{1, l.N}}, l.In
				case len(out) > 0 && r.Intn(2) == 0:
					r.Shuffle(len(in), func(i, j int) { in[i], in[j] = in[j], in[i] })
					r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
				}
				for _, q := range in {
					rng("AddRange", q)
				}
				for _, q := range out {
					rng("RemoveRange", q)
				}
				t.build(b)
			}
		}
	}
}

func smallCuts(p *idPkg, r *rand.Rand, n int) []uint64 {
	m := p.max()
	cuts := make([]uint64, n+1)
	switch r.Intn(4) {
	case 0: // consecutive ids at the bottom
		for k := range cuts {
			cuts[k] = uint64(k)
		}
	case 1: // the top; the last cut wraps to 0, so that cuts[n]-1 is the highest id
		for k := range cuts {
			cuts[k] = m - uint64(n) + 1 + uint64(k)
		}
		if p.w < 64 {
			cuts[n] = m + 1
		}
	case 2: // the whole space in equal parts
		for k := range cuts {
			cuts[k] = m/uint64(n)*uint64(k) + uint64(k)
		}
		cuts[n] = m + 1
	default:
		x := p.num(r) >> 1
		for k := range cuts {
			cuts[k] = x
			x += 1 + uint64(r.Intn(5))
		}
		if cuts[n] > m {
			return smallCuts(p, r, n)
		}
	}
	return cuts
}
