package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"time"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/li18ngo"
	"verif/vs/vexp"
)

func main() {
	if err := li18ngo.Use(); err != nil {
		panic(err)
	}
	core.Now = func() time.Time { return time.Unix(1700000000, 0).UTC() }
	switch os.Args[1] {
	case "worker":
		worker()
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "check":
		os.Exit(check(os.Args[2]))
	case "try": // try SCEN BOUND SECONDS
		var sc Scen
		if err := json.Unmarshal([]byte(os.Args[2]), &sc); err != nil {
			panic(err)
		}
		b, _ := strconv.Atoi(os.Args[3])
		sec, _ := strconv.Atoi(os.Args[4])
		t := time.Now()
		st := sc.explore(b, t.Add(time.Duration(sec)*time.Second), os.Getenv("NOPRUNE") == "")
		js, _ := json.Marshal(st)
		fmt.Println(string(js), time.Since(t))
		if os.Getenv("TRACE") != "" || st.Bad != "" {
			bad, out, _ := sc.once(&vexp.Explorer{Replay: true, Fixed: st.Choices}, sc.oracles(), true)
			for _, l := range out.Trace {
				fmt.Println(l)
			}
			fmt.Println(bad, out.Left)
		}
	}
}
