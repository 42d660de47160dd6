package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

// debugSim honours VERIF_DBG=fn:block:every for development.
func debugSim(s *sim.Sim) {
	spec := os.Getenv("VERIF_DBG")
	if spec == "" {
		return
	}
	if spec == "count" {
		cnt := map[string]int{}
		n := 0
		s.Debug = func(st *sim.State, b *ssa.BasicBlock) {
			cnt[fmt.Sprintf("%s:%d", b.Parent().Name(), b.Index)]++
			n++
			if n%20000 == 0 {
				for k, v := range cnt {
					if v > 2000 {
						fmt.Println(k, v)
					}
				}
				fmt.Println("--")
			}
		}
		return
	}
	p := strings.Split(spec, ":")
	blk, _ := strconv.Atoi(p[1])
	every, _ := strconv.Atoi(p[2])
	debugStates(s, p[0], blk, every)
}

func dumpFacts(st *sim.State) {
	if os.Getenv("VERIF_FACTS") == "" {
		return
	}
	for v, f := range st.AllFacts() {
		fmt.Println("   fact", v, f)
	}
	fmt.Println()
}
