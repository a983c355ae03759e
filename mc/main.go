package main

import (
	"fmt"
	"os"
	"sort"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: mc check ID tier root | one ID tier family index | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		workerMain(os.Args[2:])
	case "one":
		oneMain(os.Args[2:])
	case "check":
		os.Exit(checkMain(os.Args[2], os.Args[3], os.Args[4]))
	case "race":
		raceMain(os.Args[2:])
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
			for _, th := range []bool{false, true} {
				for _, f := range checks[id].Families(th) {
					fmt.Printf("   thorough=%v %s: %d (%s)\n", th, f.Name, f.N, f.Desc)
				}
			}
		}
	}
}
