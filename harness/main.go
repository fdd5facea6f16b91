package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"

	"github.com/snivilised/li18ngo"
)

// harness check ID            the check of one property (parent process)
// harness worker ID I N DIR   one of its workers
// harness replay FILE         re-runs a recorded violation; exit 1 if it fails
// harness count ID            sizes of the domains
func main() {
	debug.SetMaxStack(64 << 20)
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|replay|count ...")
		os.Exit(2)
	}
	th := os.Getenv("VERIF_TIER") == "thorough"
	if err := li18ngo.Use(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(os.Args[2], th))
	case "worker":
		i, _ := strconv.Atoi(os.Args[3])
		n, _ := strconv.Atoi(os.Args[4])
		runWorker(os.Args[2], th, i, n, os.Args[5])
	case "replay":
		os.Exit(runReplay(os.Args[2]))
	case "count":
		p := props()[os.Args[2]]
		for _, t := range []bool{false, true} {
			n := 0
			p.gen(t, func(*Case) bool { n++; return true })
			fmt.Println(os.Args[2], "thorough", t, n)
		}
	case "run": // harness run ID CASE
		var c Case
		if err := json.Unmarshal([]byte(os.Args[3]), &c); err != nil {
			panic(err)
		}
		r := props()[os.Args[2]].check(&c)
		fmt.Printf("bad: %s\nobserved: %s\n", r.bad, r.sig)
	}
}
