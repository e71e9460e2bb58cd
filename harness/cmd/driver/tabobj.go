package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"net/netip"
	"sort"

	nipam "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/iptable"
	gtable "github.com/henderiw/idxtable/pkg/table"
	"github.com/henderiw/idxtable/pkg/table/table16"
	"github.com/henderiw/idxtable/pkg/table/table32"
	"github.com/henderiw/idxtable/pkg/table/table64"
	"github.com/henderiw/idxtable/pkg/tree"
)

// ---- coordinates -------------------------------------------------------
//
// The specification numbers the ids of a table 0..n-1. A range too wide for
// that is compressed: only neighbourhoods of chosen anchor offsets are named,
// in an order-preserving, injective way; no other id is ever used by the
// driver, and an id reported from elsewhere is named unknownCode.

const (
	reach       = 1000000
	unknownCode = -777777777
	bigCode     = 1000000000
	badText     = -888888888 // text that is no address at all
)

type coord struct {
	first, last *big.Int // concrete ids
	count       *big.Int
	anchors     []*big.Int // offsets
	n           int        // number of codes
	exact       bool       // codes are the offsets themselves
}

func newCoord(first, last *big.Int) *coord {
	c := &coord{first: first, last: last}
	c.count = new(big.Int).Sub(last, first)
	c.count.Add(c.count, big.NewInt(1))
	top := new(big.Int).Sub(c.count, big.NewInt(1)) // offset of last
	if c.count.Cmp(big.NewInt(2*reach)) <= 0 {
		c.exact = true
		c.anchors = []*big.Int{big.NewInt(0)}
		c.n = int(c.count.Int64())
		return c
	}
	cand := []*big.Int{big.NewInt(0)}
	for _, e := range []uint{24, 31, 32, 40, 53, 63, 64, 96} {
		cand = append(cand, new(big.Int).Lsh(big.NewInt(1), e))
	}
	cand = append(cand, top)
	sort.Slice(cand, func(i, j int) bool { return cand[i].Cmp(cand[j]) < 0 })
	for _, a := range cand {
		if a.Cmp(top) > 0 {
			continue
		}
		if k := len(c.anchors); k > 0 {
			d := new(big.Int).Sub(a, c.anchors[k-1])
			if d.Cmp(big.NewInt(2*reach)) < 0 {
				continue
			}
		}
		c.anchors = append(c.anchors, a)
	}
	c.n = c.codeOff(top) + 1
	if c.n <= 0 {
		fatal(fmt.Errorf("range %v-%v cannot be named", first, last))
	}
	return c
}

// codeOff names an offset inside the range.
func (c *coord) codeOff(o *big.Int) int {
	if c.exact {
		return int(o.Int64())
	}
	for j, a := range c.anchors {
		d := new(big.Int).Sub(o, a)
		if d.CmpAbs(big.NewInt(reach)) < 0 {
			return j*2*reach + int(d.Int64())
		}
	}
	return unknownCode
}

// code names any concrete id.
func (c *coord) code(x *big.Int) int {
	if x.Cmp(c.first) < 0 {
		d := new(big.Int).Sub(c.first, x)
		if d.Cmp(big.NewInt(reach-1)) > 0 {
			return -(reach - 1)
		}
		return -int(d.Int64())
	}
	if x.Cmp(c.last) > 0 {
		d := new(big.Int).Sub(x, c.last)
		if d.Cmp(big.NewInt(reach-1)) > 0 {
			return c.n - 1 + reach - 1
		}
		return c.n - 1 + int(d.Int64())
	}
	return c.codeOff(new(big.Int).Sub(x, c.first))
}

// at is the concrete id with the given code inside the range.
func (c *coord) at(code int) *big.Int {
	if c.exact {
		return new(big.Int).Add(c.first, big.NewInt(int64(code)))
	}
	j := (code + reach) / (2 * reach)
	d := code - j*2*reach
	o := new(big.Int).Add(c.anchors[j], big.NewInt(int64(d)))
	return o.Add(o, c.first)
}

// arg is an id argument: its name and its concrete forms.
type arg struct {
	code int
	x    *big.Int
	s    string
}

// ---- table objects -----------------------------------------------------

type ent struct {
	I int `json:"i"`
	L int `json:"l"`
	V Val `json:"v"`
}

type tab interface {
	Claim(arg, Val) error
	Release(arg) error
	Update(arg, Val) error
	Get(arg) (ent, error)
	Has(arg) bool
	IsFree(arg) bool
	Size() int
	FindFree() (int, error)
	GetAll() []ent
	GetByLabel(Sel) []ent
	ClaimDyn(Val) (ent, error)
}

type tcfg struct {
	kind string // idx t16 t32 t64 ip
	w    int    // id length of reported entries (0: entries carry no id length)
	co   *coord
	fam  int // ip: 4 or 6
	name string
	mk   func() tab
}

// --- idxtable

type idxTab struct {
	t idxtable.Table[Val]
	c *coord
}

func (t *idxTab) u(a arg) uint64 { return a.x.Uint64() }
func (t *idxTab) name(id uint64) int {
	return t.c.code(new(big.Int).SetUint64(id))
}
func (t *idxTab) ent(e idxtable.Entry[Val]) ent {
	return ent{I: t.name(e.ID()), V: e.Data()}
}
func (t *idxTab) ents(es idxtable.Entries[Val]) []ent {
	callerReads(es)
	out := []ent{}
	for _, e := range es {
		out = append(out, t.ent(e))
	}
	return out
}
func (t *idxTab) ids(x []uint64) []int {
	callerReads(x)
	out := []int{}
	for _, id := range x {
		out = append(out, t.name(id))
	}
	return out
}
func (t *idxTab) Claim(a arg, v Val) error  { return t.t.Claim(t.u(a), v) }
func (t *idxTab) Release(a arg) error       { return t.t.Release(t.u(a)) }
func (t *idxTab) Update(a arg, v Val) error { return t.t.Update(t.u(a), v) }
func (t *idxTab) Get(a arg) (ent, error) {
	e, err := t.t.Get(t.u(a))
	if err != nil {
		return ent{}, err
	}
	return t.ent(e), nil
}
func (t *idxTab) Has(a arg) bool    { return t.t.Has(t.u(a)) }
func (t *idxTab) IsFree(a arg) bool { return t.t.IsFree(t.u(a)) }
func (t *idxTab) Size() int         { return t.t.Size() }
func (t *idxTab) FindFree() (int, error) {
	id, err := t.t.FindFree()
	if err != nil {
		return 0, err
	}
	return t.name(id), nil
}
func (t *idxTab) GetAll() []ent          { return t.ents(t.t.GetAll()) }
func (t *idxTab) GetByLabel(s Sel) []ent { panic("unsupported") }
func (t *idxTab) ClaimRange(a arg, size uint64, v Val) error {
	return t.t.ClaimRange(t.u(a), size, v)
}
func (t *idxTab) ClaimDyn(v Val) (ent, error) {
	e, err := t.t.ClaimDynamic(v)
	if err != nil {
		return ent{}, err
	}
	return t.ent(e), nil
}

// --- table16/32/64

type numTab struct {
	t gtable.Table
	c *coord
}

func treeEnt(c *coord, e tree.Entry) ent {
	return ent{I: c.code(new(big.Int).SetUint64(e.ID().ID())), L: int(e.ID().Length()), V: Val{L: labelsToL(e.Labels())}}
}
func (t *numTab) u(a arg) uint64            { return a.x.Uint64() }
func (t *numTab) Claim(a arg, v Val) error  { return t.t.Claim(t.u(a), v.set()) }
func (t *numTab) Release(a arg) error       { return t.t.Release(t.u(a)) }
func (t *numTab) Update(a arg, v Val) error { return t.t.Update(t.u(a), v.set()) }
func (t *numTab) Get(a arg) (ent, error) {
	e, err := t.t.Get(t.u(a))
	if err != nil {
		return ent{}, err
	}
	return treeEnt(t.c, e), nil
}
func (t *numTab) Has(a arg) bool    { return t.t.Has(t.u(a)) }
func (t *numTab) IsFree(a arg) bool { return t.t.IsFree(t.u(a)) }
func (t *numTab) Size() int         { return t.t.Size() }
func (t *numTab) FindFree() (int, error) {
	id, err := t.t.FindFree()
	if err != nil {
		return 0, err
	}
	return t.c.code(new(big.Int).SetUint64(id)), nil
}
func (t *numTab) ents(es tree.Entries) []ent {
	callerReads(es)
	out := []ent{}
	for _, e := range es {
		out = append(out, treeEnt(t.c, e))
	}
	return out
}
func (t *numTab) GetAll() []ent          { return t.ents(t.t.GetAll()) }
func (t *numTab) GetByLabel(s Sel) []ent { return t.ents(t.t.GetByLabel(s.selector())) }
func (t *numTab) ClaimDyn(v Val) (ent, error) {
	e, err := t.t.ClaimFree(v.set())
	if err != nil {
		return ent{}, err
	}
	return treeEnt(t.c, e), nil
}

// --- iptable

type ipTab struct {
	t iptable.IPTable
	c *coord
	f int
}

func addrInt(a netip.Addr) *big.Int { return new(big.Int).SetBytes(a.AsSlice()) }

func intAddr(x *big.Int, fam int) (netip.Addr, bool) {
	n := fam2len(fam)
	if x.Sign() < 0 || x.BitLen() > 8*n {
		return netip.Addr{}, false
	}
	b := x.FillBytes(make([]byte, n))
	a, _ := netip.AddrFromSlice(b)
	return a, true
}
func fam2len(f int) int {
	if f == 4 {
		return 4
	}
	return 16
}
func mkRoute(v Val) nipam.Route {
	return nipam.NewRoute(netip.MustParsePrefix(v.D), v.set(), nil)
}
func routeEnt(r nipam.Route) ent {
	d := ""
	if r.Prefix().IsValid() {
		d = r.Prefix().String()
	}
	return ent{V: Val{L: labelsToL(r.Labels()), D: d}}
}
func (t *ipTab) Claim(a arg, v Val) error  { return t.t.Claim(a.s, mkRoute(v)) }
func (t *ipTab) Release(a arg) error       { return t.t.Release(a.s) }
func (t *ipTab) Update(a arg, v Val) error { return t.t.Update(a.s, mkRoute(v)) }
func (t *ipTab) Get(a arg) (ent, error) {
	r, err := t.t.Get(a.s)
	if err != nil {
		return ent{}, err
	}
	e := routeEnt(r)
	e.I = a.code
	return e, nil
}
func (t *ipTab) Has(a arg) bool    { return t.t.Has(a.s) }
func (t *ipTab) IsFree(a arg) bool { return t.t.IsFree(a.s) }
func (t *ipTab) Size() int         { return t.t.Size() }
func (t *ipTab) FindFree() (int, error) {
	a, err := t.t.FindFree()
	if err != nil {
		return 0, err
	}
	if !a.IsValid() || a.Zone() != "" || len(a.AsSlice()) != fam2len(t.f) {
		return unknownCode, nil // wrong family: names no id of the table
	}
	return t.c.code(addrInt(a)), nil
}
func (t *ipTab) ents(rs nipam.Routes) []ent {
	callerReads(rs)
	out := []ent{}
	for _, r := range rs {
		out = append(out, routeEnt(r))
	}
	return out
}
func (t *ipTab) GetAll() []ent               { return t.ents(t.t.GetAll()) }
func (t *ipTab) GetByLabel(s Sel) []ent      { return t.ents(t.t.GetByLabel(s.selector())) }
func (t *ipTab) ClaimDyn(v Val) (ent, error) { panic("unsupported") }

// ---- configurations ----------------------------------------------------

func bi(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

func idxCfg(size uint64) tcfg {
	co := newCoord(bi(0), new(big.Int).Sub(bi(size), big.NewInt(1)))
	return tcfg{kind: "idx", co: co, name: fmt.Sprintf("idx %d", size),
		mk: func() tab { return &idxTab{idxtable.NewTable[Val](size), co} }}
}

func numCfg(w int, first, last uint64) tcfg {
	co := newCoord(bi(first), bi(last))
	c := tcfg{kind: fmt.Sprintf("t%d", w), w: w, co: co, name: fmt.Sprintf("t%d %d-%d", w, first, last)}
	switch w {
	case 16:
		c.mk = func() tab { return &numTab{table16.New(uint16(first), uint16(last)), co} }
	case 32:
		c.mk = func() tab { return &numTab{table32.New(uint32(first), uint32(last)), co} }
	case 64:
		c.mk = func() tab { return &numTab{table64.New(first, last), co} }
	}
	return c
}

func ipCfg(from, to string) tcfg {
	f, t := netip.MustParseAddr(from), netip.MustParseAddr(to)
	fam := 6
	if f.Is4() {
		fam = 4
	}
	co := newCoord(addrInt(f), addrInt(t))
	return tcfg{kind: "ip", co: co, fam: fam, name: "ip " + from + "-" + to,
		mk: func() tab { return &ipTab{iptable.New(f, t), co, fam} }}
}

const m64 = math.MaxUint64

func allTabCfgs() []tcfg {
	var out []tcfg
	for _, n := range []uint64{0, 1, 2, 3, 4, 5, 8, 16, 17, 40, 64, 100, 257, 1000, 70000, 1 << 32, 1<<33 + 5, 1 << 63, m64} {
		out = append(out, idxCfg(n))
	}
	for _, p := range [][2]uint64{{0, 0}, {0, 7}, {65535, 65535}, {65529, 65535}, {100, 199}, {0, 65535}, {253, 260},
		{32765, 32771}, {1, 65535}, {0, 65534}, {4094, 4097}, {7, 7}, {0, 255}, {1000, 1300}} {
		out = append(out, numCfg(16, p[0], p[1]))
	}
	for _, p := range [][2]uint64{{0, 9}, {1<<31 - 3, 1<<31 + 4}, {1<<32 - 5, 1<<32 - 1}, {65533, 65540}, {0, 1<<32 - 1},
		{16777213, 16777219}, {1000, 2000000}, {5, 5}, {1, 1<<32 - 1}, {1 << 31, 1<<32 - 1}, {1000, 1063}, {1<<32 - 1, 1<<32 - 1}, {0, 65536}} {
		out = append(out, numCfg(32, p[0], p[1]))
	}
	for _, p := range [][2]uint64{{0, 9}, {1<<32 - 4, 1<<32 + 4}, {1<<63 - 3, 1<<63 + 3}, {m64 - 5, m64}, {5, m64 - 1},
		{0, m64}, {1<<53 - 3, 1<<53 + 4}, {100, 163}, {m64, m64}, {0, 1 << 40}, {1<<32 + 1, 1<<33 + 7}, {1, m64}, {65530, 65540}} {
		out = append(out, numCfg(64, p[0], p[1]))
	}
	for _, p := range [][2]string{{"10.0.0.10", "10.0.0.20"}, {"10.0.0.250", "10.0.1.5"}, {"10.0.255.252", "10.1.0.3"},
		{"10.255.255.253", "11.0.0.4"}, {"0.0.0.0", "0.0.0.7"}, {"255.255.255.250", "255.255.255.255"},
		{"0.0.0.0", "255.255.255.255"}, {"127.255.255.254", "128.0.0.3"}, {"192.168.1.1", "192.168.1.1"}, {"10.0.0.0", "10.0.3.255"},
		{"2001:db8::10", "2001:db8::1f"}, {"::", "::7"}, {"::1", "::9"},
		{"ffff:ffff:ffff:ffff:ffff:ffff:ffff:fff8", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"},
		{"2001:db8:0:0:ffff:ffff:ffff:fffc", "2001:db8:0:1::4"}, {"2001:db8::ffff:fffc", "2001:db8::1:0:3"},
		{"2001:db8:ffff:ffff:ffff:ffff:ffff:fffd", "2001:db9::3"}, {"7fff:ffff:ffff:ffff:ffff:ffff:ffff:fffe", "8000::3"},
		{"2001:db8::", "2001:db8::ffff:ffff:ffff:fffe"}, {"2001:db8::", "2001:db8::ffff:ffff:ffff:ffff"}, {"2001:db8::", "2001:db8:0:ffff:ffff:ffff:ffff:ffff"},
		{"::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"}, {"::ffff:10.0.0.1", "::ffff:10.0.0.9"}, {"fe80::1", "fe80::1"},
		{"2001:db8::1:0:0:5", "2001:db8::3:0:0:9"}} {
		out = append(out, ipCfg(p[0], p[1]))
	}
	return out
}

// argument construction ----------------------------------------------------

func (c *tcfg) inArg(r *rand.Rand, code int) arg {
	x := c.co.at(code)
	a := arg{code: code, x: x}
	if c.kind == "ip" {
		a.s = ipText(r, x, c.fam)
	}
	return a
}

// ipText writes an address in one of its textual forms.
func ipText(r *rand.Rand, x *big.Int, fam int) string {
	ad, ok := intAddr(x, fam)
	if !ok {
		return "999.1.1.1"
	}
	if fam == 6 && r != nil {
		switch r.Intn(4) {
		case 0:
			return ad.StringExpanded()
		case 1:
			if !ad.Is4In6() {
				s := []byte(ad.String())
				for i, b := range s {
					if b >= 'a' && b <= 'f' {
						s[i] = b - 32
					}
				}
				return string(s)
			}
		}
	}
	return ad.String()
}

// outArg is an id outside the range, or ok=false if there is none of that sort.
func (c *tcfg) outArg(r *rand.Rand) (arg, bool) {
	max := bi(m64)
	if c.kind == "ip" {
		max = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(8*fam2len(c.fam))), big.NewInt(1))
		switch r.Intn(6) {
		case 0:
			s := pick(r, []string{"", "x", "10.0.0", "10.0.0.256", "10.0.0.1/32", "1.2.3.4.5", " 10.0.0.11", "10.0.0.11 ", "010.0.0.11", "::g", "2001:db8::1::2", "fe80::1%eth0", "2001:db8::12%1", "::ffff:10.0.0.300", "10", "0x0a00000b"})
			if a, err := netip.ParseAddr(s); err == nil && a.Zone() == "" {
				return arg{}, false
			}
			return arg{code: badText, s: s}, true
		case 1: // the same number in the other family
			o := c.co.first
			if c.fam == 4 {
				b := append(make([]byte, 10), 0xff, 0xff)
				b = append(b, o.FillBytes(make([]byte, 4))...)
				a, _ := netip.AddrFromSlice(b)
				if r.Intn(2) == 0 {
					a, _ = netip.AddrFromSlice(o.FillBytes(make([]byte, 16)))
				}
				return arg{code: badText, s: a.String()}, true
			}
			low := new(big.Int).And(o, bi(1<<32-1))
			a, _ := intAddr(low, 4)
			return arg{code: badText, s: a.String()}, true
		}
	}
	var x *big.Int
	switch r.Intn(6) {
	case 0, 1:
		x = new(big.Int).Sub(c.co.first, big.NewInt(int64(1+r.Intn(3))))
	case 2, 3:
		x = new(big.Int).Add(c.co.last, big.NewInt(int64(1+r.Intn(3))))
	case 4: // aliases: id plus a power of two
		k := pick(r, []uint{8, 16, 32, 63, 64})
		x = new(big.Int).Add(c.co.first, new(big.Int).Lsh(big.NewInt(1), k))
		x.Add(x, big.NewInt(int64(r.Intn(4))))
	case 5:
		x = new(big.Int).Sub(max, big.NewInt(int64(r.Intn(3))))
	}
	if x.Sign() < 0 || x.Cmp(max) > 0 {
		return arg{}, false
	}
	code := c.co.code(x)
	if code >= 0 && code < c.co.n || code == unknownCode {
		return arg{}, false
	}
	a := arg{code: code, x: x}
	if c.kind == "ip" {
		a.s = ipText(r, x, c.fam)
	}
	return a, true
}
