// C15: references lists iterate and persist exactly
package main

import (
	"fmt"
	"runtime"
	"sync"
	"time"

	"verif/kit"
	"verif/refsm"

	"github.com/skycoin/cxo/skyobject/registry"
)

func main() {
	kit.Main("C15", kit.Opts{
		Rule: "an episode is a random history over lists that share a storage: nested iterations of both directions that start " +
			"anywhere, change the list inside, stop or fail at a random element, and are compared with indexing of a slice; stored trees are " +
			"parsed without the code and loaded with other flags; lists made in different ways (appending one by one, in portions, lists, slices, " +
			"other flags) must have the same hash; reads of the storage fail at random moments",
		Assume: []string{"a list is used by one goroutine, as documented",
			"iteration goes over indexes: the next index after the current one, the element that is there now"},
		Need:     []string{"iterations", "nested", "visits", "stops", "errors", "refused", "reloads", "same_hash", "faults", "different_hash"},
		MinCases: 1000,
		Watchdog: 10 * time.Minute,
	}, run)
}

func run(k *kit.K) {
	var n = k.N(25000, 400000)
	var wg sync.WaitGroup
	var next = make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				episode(k, i)
				if i%4 == 0 {
					history(k, i)
					faults(k, i)
				}
			}
		}()
	}
	for i := 0; i < n && k.Bad() < 4000; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
}

func episode(k *kit.K, i int) {
	var r = k.Rng("ep", i)
	var e = refsm.NewE(r, []int{3, 8, 40, 400}[r.Intn(4)])
	e.New()
	if r.Intn(2) == 0 {
		e.New()
	}
	if i%50 == 0 { // a long one
		e.Ls[0].Append(e.Hashes(100 + r.Intn(300)))
	}
	var deep = 0
	k.Within("hang", e.Case(), 120*time.Second, func() {
		e.Guard(func() {
			for j := 0; j < 40 && e.Failed() == nil; j++ {
				if r.Intn(10) == 0 {
					e.SetPack()
				}
				var l = e.Ls[r.Intn(len(e.Ls))]
				if r.Intn(3) == 0 {
					l.Op()
				} else {
					l.Iterate()
				}
				l.Check("the operation")
				l.CheckStored()
				if d, err := l.R.Depth(e.P); err == nil && d > deep {
					deep = d
				}
			}
			for _, l := range e.Ls {
				l.Check("all")
				if l.Stale {
					l.Rebuild()
				}
				l.CheckStored()
			}
		})
	})
	if f := e.Failed(); f != nil {
		k.Violate(f.Key, e.Case(), "%s", f.Detail)
	}
	for name, c := range e.N {
		k.Count(name, c)
	}
	k.Count(fmt.Sprint("depth_", deep), 1)
	k.Case(deep > 1, e.Case())
	if i < 3 {
		k.Sample(e.Case())
	}
	_ = registry.MaxDegree
}

// history: the hash depends on the elements and the degree
func history(k *kit.K, i int) {
	var r = k.Rng("history", i)
	var e = refsm.NewE(r, []int{3, 40, 400}[r.Intn(3)])
	var d = []registry.Degree{2, 2, 3, 3, 4, 8, 16}[r.Intn(7)]
	var list = e.Hashes(1 + r.Intn([]int{10, 60, 300}[r.Intn(3)]))
	var hash [2]refsm.H
	k.Within("hang", e.Case(), 120*time.Second, func() {
		e.Guard(func() {
			for n := range hash {
				e.SetPack()
				e.P.Deg = d
				var l = e.New()
				var rest = list
				for len(rest) > 0 && e.Failed() == nil {
					var c = 1 + r.Intn(len(rest))
					if r.Intn(3) > 0 && c > 5 {
						c = 1 + r.Intn(5)
					}
					switch r.Intn(6) {
					case 0, 1, 2:
						l.Append(rest[:c])
					case 3:
						l.AppendValues(rest[:c])
					case 4:
						var o = e.New()
						o.Append(rest[:c])
						l.AppendRefs(o)
					case 5:
						if !l.Stale && l.R.Hash != (refsm.H{}) {
							l.Reload()
						}
						c = 0
					}
					rest = rest[c:]
				}
				if r.Intn(3) == 0 { // a slice of a longer one
					var ln = len(l.M)
					l.Append(e.Hashes(1 + r.Intn(20)))
					if x := l.Slice(0, ln); x != nil {
						l = x
					}
				}
				if l.Stale {
					l.Rebuild()
				}
				l.Check("building")
				l.CheckStored()
				hash[n] = l.R.Hash
			}
			if e.Failed() == nil && hash[0] != hash[1] {
				e.Failf("same", "two lists with the same elements and degree %d have hashes %s and %s, %d elements", d,
					hash[0].Hex()[:7], hash[1].Hex()[:7], len(list))
			}
			k.Count("same_hash", 1)
			// and another list has another one
			var other = append([]refsm.H(nil), list...)
			var x = r.Intn(len(other))
			if r.Intn(2) == 0 {
				other = append(other, refsm.H{})
			} else if h := e.Hash(); h != other[x] {
				other[x] = h
			} else {
				return
			}
			var l = e.New()
			e.P.Deg = d
			l.Append(other)
			if l.Stale {
				l.Rebuild()
			}
			if e.Failed() == nil && l.R.Hash == hash[0] {
				e.Failf("different", "different lists have the same hash")
			}
			k.Count("different_hash", 1)
		})
	})
	if f := e.Failed(); f != nil {
		k.Violate(f.Key, e.Case(), "%s", f.Detail)
	}
	k.Case(len(list) > int(d), e.Case())
}

// faults: reads of the storage fail, the list never lies
func faults(k *kit.K, i int) {
	var r = k.Rng("faults", i)
	var e = refsm.NewE(r, []int{3, 40, 400}[r.Intn(3)])
	var l = e.New()
	e.P.Fl = 0
	l.Append(e.Hashes(1 + r.Intn(60)))
	e.Guard(func() {
		for j := 0; j < 12 && e.Failed() == nil; j++ {
			var x = registry.Refs{Hash: l.R.Hash}
			e.P.Fl = registry.Flags(r.Intn(8))
			var nodes = e.Nodes(l.R.Hash)
			e.P.Broken = map[refsm.H]error{}
			for n := 1 + r.Intn(2); n > 0; n-- {
				e.P.Broken[nodes[r.Intn(len(nodes))]] = refsm.ErrX
			}
			// any number of reads, each is right or fails
			for q := 0; q < 8 && e.Failed() == nil; q++ {
				if q == 5 {
					e.P.Broken = nil
				}
				var what, err = l.Read(&x)
				e.Log("%s: %v", what, err)
				if err != nil {
					if err != refsm.ErrX {
						e.Failf("fault", "%s: the storage failed with %q, but it is %q", what, refsm.ErrX, err)
					}
					k.Count("faults", 1)
					if q >= 5 {
						e.Failf("fault", "%s: %v, but the storage does not fail any more and the list has been reset", what, err)
					}
					// as documented, a list that can't be loaded must be reset
					e.P.Broken = map[refsm.H]error{}
					if err = x.Reset(); err != nil {
						e.Failf("fault", "Reset: %v", err)
					}
					q = 4
				}
			}
		}
	})
	if f := e.Failed(); f != nil {
		k.Violate(f.Key, e.Case(), "%s", f.Detail)
	}
	k.Case(true, e.Case())
}
