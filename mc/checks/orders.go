package checks

import (
	"fmt"

	"xpdfmc/core"
	"xpdfmc/sched"
)

// orders runs f once per iteration order of the maps ranged over in the code under test (in the
// plain build: once, with whatever order comes). f returns whether to go on.
func orders(r *core.Rec, f func(ord string) bool) {
	if !sched.Instrumented {
		f("")
		return
	}
	sched.SetOrder(0)
	if !f("") {
		return
	}
	n := sched.Orders()
	for p := 1; p < n; p++ {
		sched.SetOrder(p)
		r.Count("map_orders", 1)
		if !f(fmt.Sprintf("(maps iterated over in order %d) ", p)) {
			break
		}
	}
	sched.SetOrder(0)
}
