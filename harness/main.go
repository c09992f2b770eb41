// Command verifcheck runs one property monitor in this process.
package main

import (
	"flag"
	"fmt"
	"os"

	"verifharness/mon"
	"verifharness/props"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "child" {
		os.Exit(props.RunChild(os.Args[2:]))
	}
	var (
		prop     = flag.String("prop", "", "property id")
		tier     = flag.String("tier", "quick", "quick or thorough")
		seed     = flag.Uint64("seed", 1, "seed")
		mode     = flag.String("mode", "plain", "build mode of this binary")
		verif    = flag.String("verif", "/verif", "directory of the framework")
		repo     = flag.String("repo", "/repo", "directory of the system under test")
		evidence = flag.String("evidence", "", "evidence file")
		replays  = flag.String("replays", "", "replay directory")
		crumbs   = flag.String("crumbs", "", "breadcrumb file")
		only     = flag.String("only", "", "run one workload only")
		index    = flag.Int("index", -1, "run one case of that workload only")
	)
	flag.Parse()
	p := props.All[*prop]
	if p == nil {
		fmt.Println("no such property:", *prop)
		os.Exit(4)
	}
	c := mon.New(p, *tier, *seed, *mode, *verif, *repo)
	c.OnlyWorkload, c.OnlyIndex = *only, *index
	if *crumbs != "" {
		if err := c.OpenCrumbs(*crumbs); err != nil {
			fmt.Println("breadcrumbs:", err)
			os.Exit(4)
		}
	}
	if err := c.LoadKnown(*verif + "/known_findings.json"); err != nil {
		fmt.Println("known findings:", err)
		os.Exit(4)
	}
	p.Run(c)
	os.Exit(c.Finish(*evidence, *replays, c.Wall()))
}
