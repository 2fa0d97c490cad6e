// Package sched controls what is left open by the language in the instrumented build of the code
// under test: the order of iterating over maps, the interleaving of goroutines, and the initial state
// of package-level variables. In the plain build nothing calls it.
package sched

import (
	"fmt"
	"runtime"
	"sort"
	"time"
)

// Instrumented is set by the instrumented build.
var Instrumented bool

// ---- iteration over maps

var order int
var maxKeys int

// SetOrder chooses the order for all iterations from now on; 0 is sorted.
func SetOrder(p int) { order, maxKeys = p, 0 }

// Orders is the number of orders worth distinguishing for what was iterated over since SetOrder:
// all permutations of up to 4 keys, for more every rotation and its reverse.
func Orders() int {
	switch {
	case maxKeys <= 1:
		return 1
	case maxKeys <= 4:
		return [...]int{1, 1, 2, 6, 24}[maxKeys]
	}
	n := 2 * maxKeys
	if n < 24 {
		n = 24
	}
	return n
}

// Entry is one entry of a map that is iterated over.
type Entry[K comparable, V any] struct {
	m map[K]V
	K K
}

// Live tells whether the entry is still there.
func (e Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }

// V is the value.
func (e Entry[K, V]) V() V { return e.m[e.K] }

// Entries lists the entries of a map in the order chosen.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	es := make([]Entry[K, V], 0, len(m))
	names := make([]string, 0, len(m))
	for k := range m {
		es = append(es, Entry[K, V]{m, k})
		names = append(names, fmt.Sprintf("%v", k))
	}
	idx := make([]int, len(es))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return names[idx[a]] < names[idx[b]] })
	if n := len(es); n > 1 && order >= 0 {
		if n > maxKeys && !active() {
			maxKeys = n
		}
		idx = permute(idx, order)
	}
	out := make([]Entry[K, V], len(es))
	for i, j := range idx {
		out[i] = es[j]
	}
	return out
}

func permute(idx []int, p int) []int {
	n := len(idx)
	out := make([]int, 0, n)
	if n <= 4 {
		f := [...]int{1, 1, 2, 6, 24}[n]
		p %= f
		rest := append([]int{}, idx...)
		for k := n; k > 0; k-- {
			f /= k
			q := p / f
			p %= f
			out = append(out, rest[q])
			rest = append(rest[:q], rest[q+1:]...)
		}
		return out
	}
	p %= 2 * n
	for k := 0; k < n; k++ {
		out = append(out, idx[(k+p/2)%n])
	}
	if p%2 == 1 {
		for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
			out[a], out[b] = out[b], out[a]
		}
	}
	return out
}

// ---- package-level state

var resets []func()

// OnReset registers a function that gives package-level variables their initial values.
func OnReset(f func()) { resets = append(resets, f) }

// Reset puts the packages under test in the state they have at the start of a program.
func Reset() {
	for _, f := range resets {
		f()
	}
}

// ---- interleavings
//
// The threads of a run execute one at a time; who runs is said by a plain variable that the race
// detector does not see, so that handing over makes no happens-before edge between the threads and
// accesses that only the schedule keeps apart are still reported.

const maxThreads = 4

// Switch is a preemption: when thread T has passed N points it hands over to thread To.
type Switch struct{ T, N, To int }

type state struct {
	on     bool
	cur    int
	n      int
	cnt    [maxThreads]int
	done   [maxThreads]bool
	plan   [8]Switch
	nplan  int
	at     int
	depth  int // no preemption
	free   bool
	forced int
}

var st state

//go:norace
//go:noinline
func active() bool { return st.on }

//go:norace
//go:noinline
func current() int { return st.cur }

//go:norace
//go:noinline
func freed() bool { return st.free }

// P is a point where a thread may be preempted.
//
//go:norace
//go:noinline
func P() {
	if !st.on {
		return
	}
	me := st.cur
	c := st.cnt[me]
	st.cnt[me] = c + 1
	if st.at < st.nplan && st.depth == 0 && !st.free {
		s := st.plan[st.at]
		if s.T == me && s.N <= c {
			st.at++
			if s.To != me && s.To < st.n && !st.done[s.To] {
				handOver(me, s.To)
			}
		}
	}
}

//go:norace
//go:noinline
func handOver(me, to int) {
	st.cur = to
	for current() != me && !freed() {
		runtime.Gosched()
	}
}

//go:norace
//go:noinline
func next(me int) int {
	for k := 1; k < st.n; k++ {
		if t := (me + k) % st.n; !st.done[t] {
			return t
		}
	}
	return -1
}

//go:norace
//go:noinline
func begin(me int) {
	for current() != me && !freed() {
		runtime.Gosched()
	}
}

//go:norace
//go:noinline
func end(me int) {
	st.done[me] = true
	if t := next(me); t >= 0 {
		st.cur = t
	}
}

//go:norace
//go:noinline
func yieldBlocked() bool {
	me := st.cur
	st.forced++
	t := next(me)
	if t < 0 || st.free || st.forced > 200000 {
		return false
	}
	handOver(me, t)
	return true
}

// Lock takes a lock the code under test wants, letting the others run while it is held.
func Lock(try func() bool, lock func()) {
	if active() {
		for !try() {
			if !yieldBlocked() {
				lock()
				return
			}
		}
		return
	}
	lock()
}

//go:norace
//go:noinline
func deeper(d int) { st.depth += d }

// Do is sync.Once.Do; what is done once is not preempted.
func Do(do func(func()), f func()) {
	if !active() {
		do(f)
		return
	}
	deeper(1)
	defer deeper(-1)
	do(f)
}

// Result of a run.
type Result struct {
	Points  []int
	Forced  int
	Blocked bool // a thread waited for something the scheduler does not know; the rest ran freely
}

//go:norace
//go:noinline
func setUp(n int, plan []Switch) {
	st = state{}
	st.n = n
	st.nplan = copy(st.plan[:], plan)
	if n > 0 {
		st.on = true
	}
}

//go:norace
//go:noinline
func snapshot() (r Result) {
	r.Points = append(r.Points, st.cnt[:st.n]...)
	r.Forced = st.forced
	r.Blocked = st.free
	return
}

//go:norace
//go:noinline
func total() int {
	t := 0
	for k := 0; k < st.n; k++ {
		t += st.cnt[k]
		if st.done[k] {
			t++
		}
	}
	return t
}

//go:norace
//go:noinline
func setFree() { st.free = true }

// Run executes the threads, thread 0 first, with the preemptions of the plan.
func Run(plan []Switch, fs ...func()) Result {
	setUp(len(fs), plan)
	ch := make(chan struct{}, len(fs))
	for k := range fs {
		k := k
		go func() {
			begin(k)
			fs[k]()
			end(k)
			ch <- struct{}{}
		}()
	}
	last := -1
	for left := len(fs); left > 0; {
		select {
		case <-ch:
			left--
			continue
		default:
		}
		t := time.NewTimer(3 * time.Second)
		select {
		case <-ch:
			left--
		case <-t.C:
			if n := total(); n == last {
				setFree()
			} else {
				last = n
			}
		}
		t.Stop()
	}
	r := snapshot()
	setUp(0, nil)
	return r
}

// Zero sets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}
