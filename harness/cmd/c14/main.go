// C14: a references list behaves as a list
package main

import (
	"fmt"
	"runtime"
	"sync"
	"time"

	"verif/kit"
	"verif/refsm"

	"github.com/skycoin/cxo/skyobject/registry"
)

func main() {
	kit.Main("C14", kit.Opts{
		Rule: "an episode is a random history of operations over up to five lists that share a storage, each list has " +
			"its own degree and flags; every reply is compared with a slice of hashes, and after every operation the list and " +
			"the tree stored under its hash are read back; an episode that grew a tree of two levels is non-trivial",
		Assume: []string{"a list is used by one goroutine, as documented; a list is not appended to itself, which is documented as undefined"},
		Need: []string{"append_hashes", "append_refs", "append_values", "set", "delete", "delete_by_hash", "slice",
			"set_degree", "clear", "rebuild", "reset", "walk", "find", "get", "reloads"},
		MinCases: 1000,
		Watchdog: 10 * time.Minute,
	}, run)
}

func run(k *kit.K) {
	var n = k.N(40000, 600000)
	var wg sync.WaitGroup
	var next = make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				episode(k, i)
			}
		}()
	}
	for i := 0; i < n && k.Bad() < 4000; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
}

func episode(k *kit.K, i int) {
	var r = k.Rng("ep", i)
	var e = refsm.NewE(r, []int{3, 8, 40, 400}[r.Intn(4)])
	e.New()
	if r.Intn(2) == 0 {
		e.New()
	}
	if i%50 == 0 { // a long one
		e.Ls[0].Append(e.Hashes(500 + r.Intn(1500)))
	}
	var deep = 0
	k.Within("hang", e.Case(), 120*time.Second, func() {
		e.Guard(func() {
			for j := 0; j < 40 && e.Failed() == nil; j++ {
				if r.Intn(10) == 0 {
					e.SetPack()
				}
				var l = e.Ls[r.Intn(len(e.Ls))]
				l.Op()
				l.Check("the operation")
				l.CheckStored()
				if d, err := l.R.Depth(e.P); err == nil && d > deep {
					deep = d
				}
			}
			for _, l := range e.Ls {
				l.Check("all")
				if l.Stale {
					l.Rebuild()
				}
				l.CheckStored()
			}
		})
	})
	if f := e.Failed(); f != nil {
		k.Violate(f.Key, e.Case(), "%s", f.Detail)
	}
	for name, c := range e.N {
		k.Count(name, c)
	}
	k.Count(fmt.Sprint("depth_", deep), 1)
	k.Case(deep > 1, e.Case())
	if i < 3 {
		k.Sample(e.Case())
	}
	_ = registry.MaxDegree
}
