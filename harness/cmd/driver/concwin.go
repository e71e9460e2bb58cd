package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"
)

// Scenarios that TLC found in Windows.tla: one call of the first thread, a few
// of the second one.

type winCall struct {
	Op   string
	K, Z int
	L    string
}
type window struct {
	X    winCall
	O    []winCall
	T    []string // per cell: "-" or the label of its entry
	U    string
	Bits int
}

func readWindows(path string) []window {
	f, err := os.Open(path)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	var out []window
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var w window
		if err := json.Unmarshal(sc.Bytes(), &w); err != nil {
			fatal(err)
		}
		out = append(out, w)
	}
	return out
}

func labelled(v Val, l string) Val {
	for i := range v.L {
		if v.L[i][0] == "a" {
			v.L[i][1] = l
		}
	}
	return v
}

var winSel = Sel{T: "req", Rs: []Req{{K: "a", Op: "eq", Vs: []string{"x"}}}}

func concTabWindows(path, kinds string, random int, seed int64, budget time.Duration) {
	t0 := time.Now()
	r := rand.New(rand.NewSource(seed))
	wins := readWindows(path)
	runs, scen, all := 0, 0, 0
	for _, kind := range strings.Split(kinds, ",") {
		ops := strings.Join(tabOps(kind), " ") + " "
		for _, w := range wins {
			fits := strings.Contains(ops, w.X.Op+" ")
			for _, c := range w.O {
				fits = fits && strings.Contains(ops, c.Op+" ")
			}
			var cfgs []tcfg
			for _, c := range concTabCfgs(kind) {
				if c.co.n >= len(w.T) {
					cfgs = append(cfgs, c)
				}
			}
			if !fits || len(cfgs) == 0 {
				continue
			}
			all++
			if time.Since(t0) > budget {
				continue
			}
			cfg := pick(r, cfgs)
			g := &concTabGen{cfg: cfg, r: r}
			o := &concTab{cfg: cfg}
			for c := 0; c < cfg.co.n; c++ {
				l := "y" // ids beyond the cells are out of the way
				if c < len(w.T) {
					l = w.T[c]
				}
				if l != "-" {
					o.init = append(o.init, call{op: "Claim", a: cfg.inArg(nil, c), v: labelled(g.val(), l)})
				}
			}
			mk := func(w winCall) call {
				c := call{op: w.Op, size: uint64(w.Z), v: labelled(g.val(), w.L), sel: winSel}
				if w.K > 0 {
					c.a = cfg.inArg(nil, w.K-1)
				}
				if c.op == "Get" && r.Intn(5) == 0 {
					c.op = pick(r, []string{"Has", "IsFree"})
				}
				return c
			}
			o.progs = [][]call{{mk(w.X)}, {}}
			for _, c := range w.O {
				o.progs[1] = append(o.progs[1], mk(c))
			}
			c := &concRec{out: map[string]bool{}}
			head := M{"kind": cfg.kind, "n": cfg.co.n, "w": cfg.w, "cap": cfg.co.n, "name": cfg.name}
			if bad := guarded(func() M { o.setup(); head["init"] = o.contents(); return M{} }); isPanic(bad) {
				head["init"] = []any{}
			}
			c.head = head
			c.explore(o, []int{1, len(w.O)}, r, random, points)
			runs += c.runs
			scen++
		}
	}
	fmt.Printf("CONC scenarios=%d of %d schedules=%d judged=%d\n", scen, all, runs, accessRuns)
}

func concTreeWindows(path, kinds string, random int, seed int64, budget time.Duration) {
	t0 := time.Now()
	r := rand.New(rand.NewSource(seed))
	wins := readWindows(path)
	runs, scen, all := 0, 0, 0
	pfx := map[string][]string{"cover": {"", "0", "1"}, "chain": {"", "0", "00"}, "range": {"01", "1", "10"}}
	for _, width := range parseInts(kinds) {
		for _, w := range wins {
			all++
			if time.Since(t0) > budget {
				continue
			}
			o := &concTree{w: width, n: w.Bits}
			g := &concTreeGen{o: o, r: r}
			sp := strings.Repeat("0", o.w-o.n)
			cell := func(k int) string { return sp + pfx[w.U][k-1] }
			for k, l := range w.T {
				if l != "-" {
					o.init = append(o.init, tcall{op: "Claim", o: 1, p: cell(k + 1), v: labelled(g.val(), l)})
				}
			}
			mk := func(w winCall) tcall {
				c := tcall{op: w.Op, o: 1, v: labelled(g.val(), w.L), sel: winSel}
				if w.K > 0 {
					c.p = cell(w.K)
				}
				switch w.Op {
				case "ClaimRange":
					c.kind, c.text, c.a, c.b = "ok", "1-2", numBits(o.w, 1), numBits(o.w, 2)
				case "Clone":
					c.o2 = 10
				}
				return c
			}
			o.progs = [][]tcall{{mk(w.X)}, {}}
			for _, c := range w.O {
				o.progs[1] = append(o.progs[1], mk(c))
			}
			c := &concRec{out: map[string]bool{}}
			head := M{"w": o.w, "n": o.n, "name": fmt.Sprintf("tree%d", o.w), "init": []any{}}
			guarded(func() M {
				o.setup()
				if st, bad := o.finalM(); !isPanic(bad) {
					head["init"] = st
				}
				return M{}
			})
			c.head = head
			c.explore(o, []int{1, len(w.O)}, r, random, min(points, 160))
			runs += c.runs
			scen++
		}
	}
	fmt.Printf("CONC scenarios=%d of %d schedules=%d judged=%d\n", scen, all, runs, accessRuns)
}
