// Command xpdfmc explores and judges; see /verif/DESIGN.md.
package main

import (
	_ "xpdfmc/checks"
	"xpdfmc/core"
)

func main() { core.Main() }
