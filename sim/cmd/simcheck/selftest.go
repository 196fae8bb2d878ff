package main

import (
	"fmt"

	"verifsim/dst"
)

// selftest executes runs of every property twice and prints the digests, so
// that two processes can be compared: simcheck selftest SEED N
func selftest(a []string) {
	var base uint64
	var n int
	fmt.Sscan(a[0], &base)
	fmt.Sscan(a[1], &n)
	bad := 0
	for _, p := range dst.Props {
		for i := 0; i < n; i++ {
			s := runSeed(base, p.ID, i)
			a, b := p.Judge(genRun(p, s, "quick")), p.Judge(genRun(p, s, "quick"))
			if a.Hash != b.Hash {
				bad++
				fmt.Println("differs", p.ID, i)
			}
			fmt.Printf("%s %d %016x\n", p.ID, i, a.Hash)
		}
	}
	if bad > 0 {
		fail("%d runs are not deterministic", bad)
	}
}
