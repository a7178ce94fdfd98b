package main

import (
	"fmt"
	"math/bits"
	"os"
	"sort"
	"strings"
	"sync"

	"verif.sim/refvrf"
)

// grind searches names whose private indices share long prefixes under the
// fixed keys of keysFor, and prints deepnames.go.
func grind(n int) {
	fmt.Println("package main\n\n// Code generated by \"harness grind\"; names whose private indices under\n// keysFor(k) share long prefixes, in groups.\n\nvar deepNames = map[int64][]string{")
	for ks := int64(1); ks <= 4; ks++ {
		k := keysFor(ks)
		idx := make([][]byte, n)
		var wg sync.WaitGroup
		for c := 0; c < 4; c++ {
			c := c
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := c; i < n; i += 4 {
					idx[i] = refvrf.PrivateKey(k.vrf).Compute([]byte(deepName(i)))
				}
			}()
		}
		wg.Wait()
		ord := make([]int, n)
		for i := range ord {
			ord[i] = i
		}
		sort.Slice(ord, func(a, b int) bool { return string(idx[ord[a]]) < string(idx[ord[b]]) })
		lcp := func(a, b int) int {
			for i := range idx[a] {
				if x := idx[a][i] ^ idx[b][i]; x != 0 {
					return i*8 + bits.LeadingZeros8(x)
				}
			}
			return 256
		}
		fmt.Printf("\t%d: {\n", ks)
		emit := func(size, want int) {
			type grp struct{ at, l int }
			var gs []grp
			for i := 0; i+size <= n; i++ {
				gs = append(gs, grp{i, lcp(ord[i], ord[i+size-1])})
			}
			sort.SliceStable(gs, func(a, b int) bool { return gs[a].l > gs[b].l })
			for _, g := range gs[:want] {
				var s []string
				for i := 0; i < size; i++ {
					s = append(s, deepName(ord[g.at+i]))
				}
				fmt.Printf("\t\t%q, // %d bits\n", strings.Join(s, " "), g.l)
			}
		}
		emit(2, 8)
		emit(3, 6)
		emit(5, 6)
		emit(12, 3)
		fmt.Println("\t},")
	}
	fmt.Println("}")
	os.Stdout.Sync()
}

func deepName(i int) string { return fmt.Sprintf("p%06d-deep", i) }
