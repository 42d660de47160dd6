// Command fvet decides the semantic properties of forego by static analysis.
package main

import (
	"fmt"
	"os"
	"sort"
	"time"
)

func main() {
	t0 := time.Now()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: fvet <property>|all|list")
		os.Exit(2)
	}
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	switch os.Args[1] {
	case "list":
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	case "all":
		if len(os.Args) > 2 {
			ids = os.Args[2:]
		}
	default:
		ids = os.Args[1:]
	}
	p, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, "fvet:", err)
		os.Exit(2)
	}
	rc := 0
	for _, id := range ids {
		c := registry[id]
		if c == nil {
			fmt.Fprintln(os.Stderr, "fvet: unknown property", id)
			os.Exit(2)
		}
		t1 := time.Now()
		if len(ids) == 1 {
			t1 = t0
		}
		if x := runCheck(c, p, t1); x > rc {
			rc = x
		}
		if os.Getenv("VERIF_TIME") != "" {
			fmt.Println(id, time.Since(t1))
		}
	}
	os.Exit(rc)
}
