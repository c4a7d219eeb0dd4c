// favecheck runs the monitors of one property against FaVe as it is in /repo.
package main

import (
	"fmt"
	"os"
	"strconv"

	"faveverif/checks"
	"faveverif/fx"
	"faveverif/mon"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: favecheck <property> quick|thorough")
		os.Exit(2)
	}
	out := os.Stdout
	// FaVe prints a line per document
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	f, ok := checks.All[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such property")
		os.Exit(2)
	}
	t := mon.New(dir, os.Args[1], os.Args[2], seed, out)
	// not where races, goroutines or requests still under way are looked at
	fx.DropOnStop = os.Args[2] == "thorough" && os.Args[1] != "C10" && os.Args[1] != "C11" && os.Args[1] != "C12" && os.Args[1] != "C23"
	f(t)
	os.Exit(t.Finish())
}
