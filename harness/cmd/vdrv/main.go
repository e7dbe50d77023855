// vdrv runs one conformance driver: it replays behaviours of a TLA+ specification on the code of /repo, or records
// behaviours of that code, and reports every disagreement.
package main

import (
	"flag"
	"fmt"
	"os"
	"sort"

	"fpkiverif/lib"
)

type driver func(args []string, res *lib.Result)

var drivers = map[string]driver{}

func main() {
	if len(os.Args) < 2 || drivers[os.Args[1]] == nil {
		names := []string{}
		for n := range drivers {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Fprintln(os.Stderr, "usage: vdrv <driver> args... ; drivers:", names)
		os.Exit(3)
	}
	// "-out FILE" comes last
	fs := flag.NewFlagSet("vdrv", flag.ExitOnError)
	out := ""
	args := os.Args[2:]
	for i := 0; i+1 < len(args); i++ {
		if args[i] == "-out" {
			out = args[i+1]
			args = append(append([]string{}, args[:i]...), args[i+2:]...)
			break
		}
	}
	_ = fs
	res := lib.NewResult()
	drivers[os.Args[1]](args, res)
	if out != "" {
		lib.Must(res.Write(out))
	} else {
		for _, v := range res.Violations {
			fmt.Println("VIOLATION", v.Key, v.What)
		}
		fmt.Println(res.Evaluations, res.Traces, res.Notes)
	}
}
