package verifsync

import "unsafe"

// ---- the record of what the threads did to shared memory and to the locks

// Event kinds
const (
	Read = iota
	Write
	WLock
	WUnlock
	RLock
	RUnlock
)

type Event struct {
	T    int
	Kind int
	P    unsafe.Pointer // keeps the memory from being used again
	Size uintptr
	Site int
}

var (
	Recording bool
	Events    []Event
	Overflow  bool
	later     map[int][]Event
)

const maxEvents = 60000

func StartRecording() {
	Recording, Overflow = true, false
	Events = Events[:0]
	later = map[int][]Event{}
}

func note(kind int, p unsafe.Pointer, size uintptr, site int) {
	if !Recording || s == nil || size == 0 || p == nil {
		return
	}
	if len(Events) >= maxEvents {
		Overflow = true
		return
	}
	Events = append(Events, Event{s.cur, kind, p, size, site})
}

func noteLater(p unsafe.Pointer, size uintptr, site int) {
	if !Recording || s == nil {
		return
	}
	later[s.cur] = append(later[s.cur], Event{s.cur, Write, p, size, site})
}

// Stored reports the last n writes announced by WL and MWL.
func Stored(n int) {
	if !Recording || s == nil {
		return
	}
	l := later[s.cur]
	if n > len(l) {
		n = len(l)
	}
	for _, e := range l[len(l)-n:] {
		note(Write, e.P, e.Size, e.Site)
	}
	later[s.cur] = l[:len(l)-n]
}

func R[T any](p *T, site int) *T {
	note(Read, unsafe.Pointer(p), unsafe.Sizeof(*p), site)
	return p
}
func W[T any](p *T, site int) *T {
	note(Write, unsafe.Pointer(p), unsafe.Sizeof(*p), site)
	return p
}
func WL[T any](p *T, site int) *T {
	noteLater(unsafe.Pointer(p), unsafe.Sizeof(*p), site)
	return p
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}
func MR[M ~map[K]V, K comparable, V any](m M, site int) M {
	note(Read, mapPtr(m), 1, site)
	return m
}
func MW[M ~map[K]V, K comparable, V any](m M, site int) M {
	note(Write, mapPtr(m), 1, site)
	return m
}
func MWL[M ~map[K]V, K comparable, V any](m M, site int) M {
	noteLater(mapPtr(m), 1, site)
	return m
}

func elems[S ~[]T, T any](kind int, s S, site int) {
	if len(s) > 0 {
		note(kind, unsafe.Pointer(&s[0]), unsafe.Sizeof(s[0])*uintptr(len(s)), site)
	}
}

// RS and WS: all elements are read or written.
func RS[S ~[]T, T any](s S, site int) S {
	elems(Read, s, site)
	return s
}
func WS[S ~[]T, T any](s S, site int) S {
	elems(Write, s, site)
	return s
}

// AP: the slice is appended to; either the element after the last is written
// or all are read to be moved.
func AP[S ~[]T, T any](s S, site int) S {
	if len(s) < cap(s) {
		elems(Write, s[len(s):len(s)+1], site)
	} else {
		elems(Read, s, site)
	}
	return s
}

func lockEvent(kind int, p unsafe.Pointer) {
	if s != nil {
		switch kind {
		case WLock, RLock:
			s.ths[s.cur].held++
		case WUnlock, RUnlock:
			s.ths[s.cur].held--
		}
	}
	note(kind, p, 1, 0)
}
