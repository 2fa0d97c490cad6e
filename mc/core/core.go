// Package core drives exhaustive explorations: a check is a list of finite spaces of cases, every
// case is executed on the real code and judged, and the run is spread over several processes that a
// supervisor watches, so that a crash or a hang of the code under test is a finding and not the end
// of the run.
package core

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
)

// Space is a finite space of cases, numbered 0..N-1. Run executes one and must be deterministic.
type Space struct {
	Name string
	N    int64
	Run  func(i int64, r *Rec)
	Desc func(i int64) string
}

// Check decides one property.
type Check struct {
	ID          string
	Rule        string // what is enumerated and judged
	Spaces      func(tier string) []Space
	Assumptions []string
	Instr       bool             // wants the instrumented build (scheduler and map order)
	Setup       func(dir string) // once per process, before the first case; dir is scratch
	// Exec executes a request in a fresh process (see ExecSelf)
	Exec func(req, dir string) string
}

var registry = map[string]*Check{}

func Register(c *Check) { registry[c.ID] = c }

func Get(id string) *Check { return registry[id] }

func IDs() []string {
	var out []string
	for id := range registry {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

// Failure is one violated expectation.
type Failure struct {
	Space string `json:"space"`
	I     int64  `json:"i"`
	Sig   string `json:"sig"`
	Msg   string `json:"msg"`
	Desc  string `json:"desc"`
}

// Rec records what happened during a case.
type Rec struct {
	fails  []Failure
	space  string
	i      int64
	obs    map[uint64]struct{}
	trans  int64
	impl   int64
	skips  int64
	Extra  map[string]int64
	detail func() string
}

func NewRec() *Rec { return &Rec{obs: map[uint64]struct{}{}, Extra: map[string]int64{}} }

// Fail records a violation; sig names its kind.
func (r *Rec) Fail(sig, format string, a ...interface{}) {
	for _, f := range r.fails {
		if f.Space == r.space && f.I == r.i && f.Sig == sig {
			return
		}
	}
	m := fmt.Sprintf(format, a...)
	if len(m) > 6000 {
		m = m[:6000] + "..."
	}
	r.fails = append(r.fails, Failure{Space: r.space, I: r.i, Sig: sig, Msg: m})
}

func (r *Rec) Failed() bool {
	for _, f := range r.fails {
		if f.Space == r.space && f.I == r.i {
			return true
		}
	}
	return false
}

// Obs records a state (hash of an observation).
func (r *Rec) Obs(h uint64) {
	if len(r.obs) < 3000000 {
		r.obs[h] = struct{}{}
	}
}

// Trans counts transitions (operations executed).
func (r *Rec) Trans(n int) { r.trans += int64(n) }

// Impl counts executions of the real code that were compared with the model / oracle.
func (r *Rec) Impl(n int) { r.impl += int64(n) }

// Skip counts a case outside the property's precondition.
func (r *Rec) Skip() { r.skips++ }

// Count adds to a named counter of the evidence.
func (r *Rec) Count(name string, n int) { r.Extra[name] += int64(n) }

// RunCase executes one case, turning a panic into a failure.
func RunCase(s *Space, i int64, r *Rec) {
	r.space, r.i = s.Name, i
	n := len(r.fails)
	func() {
		defer func() {
			if p := recover(); p != nil {
				st := string(debug.Stack())
				r.Fail("panic", "panic: %v\n%s", p, trimStack(st))
			}
		}()
		s.Run(i, r)
	}()
	for k := n; k < len(r.fails); k++ {
		r.fails[k].Desc = describe(s, i)
	}
}

func describe(s *Space, i int64) (d string) {
	defer func() {
		if p := recover(); p != nil {
			d = fmt.Sprintf("case %d (%v)", i, p)
		}
	}()
	if s.Desc == nil {
		return fmt.Sprintf("case %d", i)
	}
	return s.Desc(i)
}

func trimStack(s string) string {
	ls := strings.Split(s, "\n")
	if len(ls) > 40 {
		ls = ls[:40]
	}
	return strings.Join(ls, "\n")
}

// Digits splits an index into mixed-radix digits (first radix fastest).
func Digits(i int64, radix ...int) []int {
	out := make([]int, len(radix))
	for k, r := range radix {
		out[k] = int(i % int64(r))
		i /= int64(r)
	}
	return out
}

// Prod multiplies.
func Prod(radix ...int) int64 {
	p := int64(1)
	for _, r := range radix {
		p *= int64(r)
	}
	return p
}

// Seqs is the number of sequences of length lo..hi over k symbols.
func Seqs(k, lo, hi int) int64 {
	var n int64
	for l := lo; l <= hi; l++ {
		p := int64(1)
		for j := 0; j < l; j++ {
			p *= int64(k)
		}
		n += p
	}
	return n
}

// Seq gives the i-th of these sequences.
func Seq(i int64, k, lo, hi int) []int {
	for l := lo; l <= hi; l++ {
		p := int64(1)
		for j := 0; j < l; j++ {
			p *= int64(k)
		}
		if i < p {
			out := make([]int, l)
			for j := 0; j < l; j++ {
				out[j] = int(i % int64(k))
				i /= int64(k)
			}
			return out
		}
		i -= p
	}
	return nil
}
