// Command mc runs the checks.
package main

import (
	"fmt"
	"os"
	"strconv"

	"verif.local/mc/h"
)

func main() {
	a := os.Args[1:]
	if len(a) == 0 {
		os.Exit(2)
	}
	switch a[0] {
	case "check":
		os.Exit(h.Main(a[1], a[2], a[3]))
	case "worker":
		s, _ := strconv.Atoi(a[3])
		n, _ := strconv.Atoi(a[4])
		os.Exit(h.Worker(a[1], a[2], s, n, a[5], a[6], a[7]))
	case "replay":
		os.Exit(h.Replay(a[1]))
	case "list":
		for _, id := range h.List() {
			fmt.Println(id, h.Checks[id].Level)
		}
	}
}
