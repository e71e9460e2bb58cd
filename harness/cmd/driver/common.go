// Command driver runs the real idxtable code and records what it did as
// newline-delimited JSON for the TLA+ trace specifications in ../../../spec.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/selection"
)

// Val is the abstract data of an entry: its labels (sorted) and an opaque token.
type Val struct {
	L [][2]string `json:"l"`
	D string      `json:"d"`

	nilSet bool // hand a nil label set to the code (same abstract value)
}

func (v Val) key() string { return fmt.Sprintf("%v|%s", v.L, v.D) }

func labelsToL(l labels.Set) [][2]string {
	callerReadsMap(l)
	out := make([][2]string, 0, len(l))
	for k, v := range l {
		out = append(out, [2]string{k, v})
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	return out
}

func (v Val) set() labels.Set {
	if v.nilSet && len(v.L) == 0 {
		return nil
	}
	s := labels.Set{}
	for _, kv := range v.L {
		s[kv[0]] = kv[1]
	}
	return s
}

// Req is one label requirement, Sel a selector.
type Req struct {
	K  string   `json:"k"`
	Op string   `json:"op"`
	Vs []string `json:"vs"`
}
type Sel struct {
	T  string `json:"t"` // "req" or "none"
	Rs []Req  `json:"rs"`
}

func (s Sel) selector() labels.Selector {
	if s.T == "none" {
		return labels.Nothing()
	}
	sel := labels.NewSelector()
	for _, r := range s.Rs {
		var op selection.Operator
		switch r.Op {
		case "in":
			op = selection.In
		case "notin":
			op = selection.NotIn
		case "eq":
			op = selection.Equals
		case "neq":
			op = selection.NotEquals
		case "ex":
			op = selection.Exists
		case "nex":
			op = selection.DoesNotExist
		}
		req, err := labels.NewRequirement(r.K, op, r.Vs)
		if err != nil && len(s.Rs) == 1 && r.Op == "eq" { // a value no requirement may have
			return labels.SelectorFromSet(labels.Set{r.K: r.Vs[0]})
		}
		if err != nil {
			panic(err)
		}
		sel = sel.Add(*req)
	}
	return sel
}

var labelKeys = []string{"a", "b", "owner"}
var labelVals = []string{"x", "y", "", "z"}

func randLabels(r *rand.Rand) Val {
	v := Val{L: [][2]string{}}
	switch r.Intn(12) {
	case 0:
		return v // empty, non-nil
	case 1:
		v.nilSet = true
		return v
	case 2, 3: // different labels that print alike, the same twice as often
		v.L = pick(r, [][][2]string{
			{{"a", "x"}, {"b", "y"}}, {{"a", "x,b=y"}}, {{"a", "x"}, {"b", "y"}}, {{"a", "x,b=y"}},
			{{"a=x", ""}}, {{"a", "x="}}, {{"a", "X"}}, {{"a", "x "}},
		})
		return v
	}
	for _, k := range labelKeys {
		if r.Intn(2) == 0 {
			v.L = append(v.L, [2]string{k, labelVals[r.Intn(len(labelVals))]})
		}
	}
	if r.Intn(12) == 0 { // many labels
		n := 5 + r.Intn(20)
		for i := 0; i < n; i++ {
			v.L = append(v.L, [2]string{fmt.Sprintf("k%02d", i), labelVals[r.Intn(2)]})
		}
		sort.Slice(v.L, func(i, j int) bool { return v.L[i][0] < v.L[j][0] })
	}
	return v
}

// nearly returns labels that differ from v's in one place.
func nearly(r *rand.Rand, v Val) Val {
	n := Val{L: append([][2]string{}, v.L...), D: v.D}
	switch k := len(n.L); {
	case k > 5 && r.Intn(2) == 0: // near the end
		i := k - 1 - r.Intn(3)
		n.L[i][1] += "0"
	case k > 0 && r.Intn(3) == 0:
		i := r.Intn(k)
		n.L = append(n.L[:i], n.L[i+1:]...)
	case k > 0 && r.Intn(2) == 0:
		i := r.Intn(k)
		n.L[i][1] = pick(r, []string{"x", "y", "", "z", n.L[i][1] + "0", strings.ToUpper(n.L[i][1])})
	default:
		key := pick(r, []string{"a", "b", "owner", "k03", "z"})
		for _, kv := range n.L {
			if kv[0] == key {
				return n
			}
		}
		n.L = append(n.L, [2]string{key, labelVals[r.Intn(4)]})
	}
	sort.Slice(n.L, func(i, j int) bool { return n.L[i][0] < n.L[j][0] })
	return n
}

// alike returns other labels that print the same, if there are any.
func alike(v Val) (Val, bool) {
	n := Val{L: append([][2]string{}, v.L...), D: v.D}
	sort.Slice(n.L, func(i, j int) bool { return n.L[i][0] < n.L[j][0] })
	for i, kv := range n.L {
		if a, b, ok := strings.Cut(kv[1], ","); ok {
			if k, x, ok := strings.Cut(b, "="); ok && (i+1 == len(n.L) || n.L[i+1][0] > k) && k > kv[0] {
				n.L[i][1] = a
				n.L = append(n.L[:i+1], append([][2]string{{k, x}}, n.L[i+1:]...)...)
				return n, true
			}
		}
	}
	if k := len(n.L); k > 1 {
		n.L[k-2][1] += "," + n.L[k-1][0] + "=" + n.L[k-1][1]
		n.L = n.L[:k-1]
		return n, true
	}
	return v, false
}

func randSel(r *rand.Rand) Sel {
	s := Sel{T: "req", Rs: []Req{}}
	switch r.Intn(12) {
	case 0:
		return Sel{T: "none", Rs: []Req{}}
	case 1:
		return s // everything
	}
	n := 1 + r.Intn(2)
	switch r.Intn(12) {
	case 0, 1:
		n = 3
	case 2:
		n = 4 + r.Intn(4)
	}
	for i := 0; i < n; i++ {
		q := Req{K: labelKeys[r.Intn(len(labelKeys))], Vs: []string{}}
		switch r.Intn(7) {
		case 0, 1, 2:
			q.Op, q.Vs = "eq", []string{labelVals[r.Intn(len(labelVals))]}
		case 3:
			q.Op, q.Vs = "neq", []string{labelVals[r.Intn(len(labelVals))]}
		case 4:
			q.Op = []string{"in", "notin"}[r.Intn(2)]
			m := 2
			if r.Intn(3) == 0 {
				m = 1 + r.Intn(9)
			}
			for k := 0; k < m; k++ {
				q.Vs = append(q.Vs, labelVals[r.Intn(len(labelVals))])
			}
			if m > 3 { // most of them nowhere in use
				for k := 0; k < m; k++ {
					q.Vs[k] = fmt.Sprintf("v%d", r.Intn(20))
				}
				q.Vs[r.Intn(m)] = labelVals[r.Intn(len(labelVals))]
				q.Vs[r.Intn(m)] = labelVals[r.Intn(len(labelVals))]
			}
		case 5:
			q.Op = "ex"
		case 6:
			q.Op = "nex"
		}
		s.Rs = append(s.Rs, q)
	}
	return s
}

// M is an event or part of one.
type M map[string]any

// recorder writes events and watches over the call in flight.
type recorder struct {
	mu    sync.Mutex
	f     *os.File
	w     *bufio.Writer
	lines int
	cur   M // call in flight
	since atomic.Int64
	flush bool // write every line at once, and the call in flight beside it
	path  string
}

var rec *recorder

var flushLines bool

var hangSeconds = 20 // a call that takes longer does not return
const heapLimit = 8 << 30

// isSlow tells whether 4000 calls take so long that every call must be copying
// what is there (right, and not what a history of 65000 calls is for).
func isSlow(calls func(), limit time.Duration) bool {
	for try := 0; try < 3; try++ {
		d := make(chan time.Duration, 1)
		go func() {
			defer func() { recover() }()
			s := time.Now()
			calls()
			d <- time.Since(s)
		}()
		select {
		case x := <-d:
			if x < limit {
				return false
			}
		case <-time.After(10 * time.Second):
			return false // stuck or panicked: the history will tell
		}
	}
	return true
}

func newRecorder(path string) *recorder {
	f, err := os.Create(path)
	if err != nil {
		fatal(err)
	}
	r := &recorder{path: path, flush: flushLines, f: f, w: bufio.NewWriterSize(f, 1<<20)}
	go r.watch()
	return r
}

func (r *recorder) watch() {
	for {
		time.Sleep(250 * time.Millisecond)
		t := r.since.Load()
		if t == 0 {
			continue
		}
		stuck := ""
		if time.Now().UnixNano()-t > int64(hangSeconds)*1e9 {
			stuck = "hang"
		} else {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > heapLimit {
				stuck = "memory"
			}
		}
		if stuck == "" || r.since.Load() != t {
			continue
		}
		r.mu.Lock()
		if r.cur != nil {
			e := r.cur
			e["r"] = M{"ok": false, "panic": stuck}
			e["set"], e["del"] = []any{}, []any{}
			e["stuck"] = true
			r.emitLocked(e)
		}
		r.w.Flush()
		fmt.Printf("STUCK %s lines=%d\n", stuck, r.lines)
		os.Exit(4)
	}
}

func (r *recorder) begin(e M) {
	r.mu.Lock()
	r.cur = e
	if r.flush {
		b, _ := json.Marshal(e)
		os.WriteFile(r.path+".cur", b, 0o644)
	}
	r.mu.Unlock()
	r.since.Store(time.Now().UnixNano())
}

// beat tells that the line in flight, which is many calls, is getting on.
func (r *recorder) beat() {
	r.since.Store(time.Now().UnixNano())
}

func (r *recorder) end() {
	r.since.Store(0)
	r.mu.Lock()
	r.cur = nil
	r.mu.Unlock()
}

func (r *recorder) emitLocked(e M) {
	b, err := json.Marshal(e)
	if err != nil {
		fatal(err)
	}
	r.w.Write(b)
	r.w.WriteByte('\n')
	r.lines++
	if r.flush {
		r.w.Flush()
	}
}

func (r *recorder) emit(e M) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.emitLocked(e)
}

func (r *recorder) close() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.w.Flush()
	r.f.Close()
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "driver:", err)
	os.Exit(2)
}

// guarded runs f and turns a panic into a result no specification action explains.
func guarded(f func() M) (ret M) {
	defer func() {
		if p := recover(); p != nil {
			s := fmt.Sprint(p)
			if len(s) > 200 {
				s = s[:200]
			}
			ret = M{"ok": false, "panic": s}
		}
	}()
	return f()
}

func isPanic(m M) bool { _, ok := m["panic"]; return ok }

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }
