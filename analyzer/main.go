// Command analyzer decides the properties of /verif/properties.jsonl from the source of the
// repository, without running it.
//
//	analyzer [-repo DIR] [-out DIR] [-tier quick|thorough] ID...
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	repo := flag.String("repo", "/repo", "repository to analyse")
	out := flag.String("out", "/verif", "directory that holds evidence/ and KNOWN_FINDINGS.txt")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	joinDebug = os.Getenv("JD") != ""
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	code := 0
	for _, id := range ids {
		start := time.Now()
		ck := checks[id]
		if ck == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		p, err := loadProgram(*repo, nil, nil)
		var c *Ctx
		if err != nil {
			c = newCtx(id, nil, *tier)
			c.obls = append(c.obls, Obligation{Rule: "load", OK: false, Msg: "undecided: " + err.Error()})
		} else {
			c = runCheck(ck, p, *tier)
		}
		if r := report(ck, c, *out, start); r != 0 {
			code = 1
		}
	}
	os.Exit(code)
}
