// Command vh is the property-based testing harness for
// github.com/chronos-tachyon/flate.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
)

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "run": // run PROP TIER ROOT SCRATCH
		if len(os.Args) != 6 {
			usage()
		}
		os.Exit(newDriver(os.Args[3], os.Args[4], os.Args[5]).run(os.Args[2]))
	case "worker": // worker PROP PART SEED N CUR OUT
		p := findPart(os.Args[2], os.Args[3])
		if p == nil {
			panic(harnessBug("no such part"))
		}
		seed, _ := strconv.ParseUint(os.Args[4], 10, 64)
		n, _ := strconv.Atoi(os.Args[5])
		runWorker(p, seed, n, os.Args[6], os.Args[7])
	case "check1": // check1 FILE
		heartbeatPath = os.Args[2]
		_, p, c, err := loadCase(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		if err := checkCase(p, c, &Cov{Classes: map[string]int{}}); err != nil {
			fmt.Fprintf(os.Stderr, "VIOLATES %v\n", err)
			os.Exit(1)
		}
	case "replay": // replay FILE ROOT SCRATCH
		cf, _, _, err := loadCase(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		d := newDriver("quick", os.Args[3], os.Args[4])
		v, b := d.probe(cf, "replay")
		if b != "" {
			fmt.Fprintln(os.Stderr, b)
			os.Exit(2)
		}
		if v != "" {
			fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", cf.Prop, os.Args[2], v)
			os.Exit(1)
		}
		fmt.Println("no violation")
	case "list":
		for _, p := range parts {
			fmt.Printf("%s %-14s mode=%q quick=%d thorough=%d\n", p.Prop, p.Name, p.Mode, p.Quick, p.Thorough)
		}
	case "modes": // the build modes a property needs
		m := map[string]bool{}
		for _, p := range parts {
			if p.Prop == os.Args[2] {
				m[p.Mode] = true
			}
		}
		for k := range m {
			fmt.Println(k)
		}
	default:
		if f, ok := subcommands[os.Args[1]]; ok {
			f(os.Args[2:])
			return
		}
		usage()
	}
}

// subcommands used by checks that need another process (another build).
var subcommands = map[string]func([]string){}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: vh run PROP TIER ROOT SCRATCH | replay FILE ROOT SCRATCH | list")
	os.Exit(3)
}

func newDriver(tier, root, scratch string) *driver {
	d := &driver{dir: scratch, root: root, tier: tier, seed: 1, bins: map[string]string{}}
	d.procs = map[*cmdT]bool{}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		d.seed = s
	}
	for _, m := range []string{"main", "race", "386", "gzip"} {
		d.bins[m] = filepath.Join(scratch, "vh-"+m)
	}
	return d
}
