// C07: statistics of object stores.
package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/skycoin/skycoin/src/cipher"

	"verif/cxm"
	"verif/kit"
)

func main() {
	kit.Main("C07", kit.Opts{
		Rule: "random histories of all operations (failed and aborted ones " +
			"included) on both stores; after every operation the reported " +
			"amounts and volumes are compared with those of the content; " +
			"reopenings; concurrent users with the comparison at rest; " +
			"non-trivial if there were used and unused objects at a comparison",
		MinCases: 100,
		Need: []string{"comparisons", "mixed", "reopenings", "aborted",
			"concurrent_histories"},
	}, run)
}

func run(k *kit.K) {
	if k.Thorough() {
		big(k)
	}
	for i := 0; i < k.N(300, 6000); i++ {
		history(k, i, "")
		history(k, i, filepath.Join(os.TempDir(), fmt.Sprint("a", i)))
	}
	for i := 0; i < k.N(60, 1500); i++ {
		concurrent(k, i, "")
		concurrent(k, i, filepath.Join(os.TempDir(), fmt.Sprint("b", i)))
	}
}

// more than 4G: takes 5G of disk
func big(k *kit.K) {
	var path = filepath.Join(os.TempDir(), "big")
	var db, err = cxm.Open(path)
	if err != nil {
		k.Violate("drive-open", "big", "%v", err)
		return
	}
	defer db.Destroy()
	var val = make([]byte, 64<<20)
	var size, used int
	var keys []cipher.SHA256
	var check = func(when string) bool {
		var a, u = db.Volume()
		if a != size || u != used {
			k.Violate("drive-big", when, "volume is %d, used %d; must be %d, %d", a, u, size, used)
			return false
		}
		return true
	}
	for i := 0; i < 66; i++ {
		copy(val, fmt.Sprint(i, " "))
		var key = cipher.SumSHA256(val)
		keys = append(keys, key)
		if _, err = db.Set(key, val, 1); err != nil {
			k.Violate("drive-set", "big", "%v", err)
			return
		}
		size, used = size+len(val), used+len(val)
	}
	if !check("stored") {
		return
	}
	if err = db.Reopen(); err != nil || !check("reopened") {
		k.Violate("drive-big", "reopened", "%v", err)
		return
	}
	for _, key := range keys[:4] {
		if _, err = db.Inc(key, -1); err != nil {
			k.Violate("drive-inc", "big", "%v", err)
			return
		}
		used -= len(val)
	}
	if err = db.Reopen(); err != nil || !check("reopened with unused objects") {
		k.Violate("drive-big", "reopened", "%v", err)
		return
	}
	k.Count("big", 1)
}

var errFail = errors.New("fail")

// content by reading of the database
func compare(k *kit.K, db *cxm.Store, kind, cas, when string) (ok bool) {
	var m, err = cxm.Content(db)
	if err != nil {
		k.Violate(kind+"-iterate", cas, "%v", err)
		return
	}
	k.Count("comparisons", 1)
	var aa, au, _, _ = m.Stat()
	if aa > au && au > 0 {
		k.Count("mixed", 1)
	}
	if bad := cxm.Stats(db, m); bad != "" {
		k.Violate(kind+"-stat-"+when, cas, "%s", bad)
		return
	}
	return true
}

func history(k *kit.K, n int, path string) {
	var (
		r     = k.Rng("hist", n)
		p     = cxm.NewPool(r, 1+r.Intn(12))
		m     = make(cxm.Model)
		ops   []string
		kind  = "memory"
		mixed bool
	)
	if path != "" {
		kind = "drive"
	}
	var db, err = cxm.Open(path)
	if err != nil {
		k.Violate(kind+"-open", "", "%v", err)
		return
	}
	defer db.Destroy()
	var cas = func() string {
		return kind + " " + strings.Join(ops, " ")
	}
	k.Guard(kind+"-panic", "", func() {
		for i := 0; i < 20+r.Intn(60); i++ {
			var op string
			switch x := r.Intn(40); {
			case x == 0 && path != "":
				op = "reopen"
				if err := db.Reopen(); err != nil {
					k.Violate("reopen", cas(), "%v", err)
					return
				}
				k.Count("reopenings", 1)
			case x <= 3 && len(m) > 0:
				op = "abort"
				abort(r, db, m)
				k.Count("aborted", 1)
			default:
				// the results are for C06
				op, _ = cxm.Step(r, p, m, db)
			}
			ops = append(ops, op)
			var aa, au, _, _ = m.Stat()
			mixed = mixed || aa > au && au > 0
			if !compare(k, db, kind, cas(), strings.Split(op, "(")[0]) {
				return
			}
		}
	})
	k.Case(mixed, cas())
	if n == 0 {
		k.Sample(cas())
	}
}

// deleting iteration that fails or panics in the middle
func abort(r *rand.Rand, db *cxm.Store, m cxm.Model) {
	var stop, n = r.Intn(len(m)), 0
	var pan = r.Intn(3) == 0
	defer func() { recover() }()
	db.IterateDel(func(cipher.SHA256, uint32, []byte) (del bool, err error) {
		if n++; n > stop {
			if pan {
				panic("fail")
			}
			return true, errFail
		}
		return true, nil
	})
}

func concurrent(k *kit.K, n int, path string) {
	var (
		r    = k.Rng("conc", n)
		p    = cxm.NewPool(r, 1+r.Intn(6))
		kind = "memory"
		gs   = 2 + r.Intn(6)
		wg   sync.WaitGroup
	)
	if path != "" {
		kind = "drive"
	}
	var db, err = cxm.Open(path)
	if err != nil {
		k.Violate(kind+"-open", "", "%v", err)
		return
	}
	defer db.Destroy()
	var cas = fmt.Sprintf("%s %d, %d goroutines, %d objects", kind, n, gs,
		len(p.Keys))
	for round := 0; round < 3; round++ {
		for g := 0; g < gs; g++ {
			wg.Add(1)
			go func(r *rand.Rand) {
				defer wg.Done()
				k.Guard(kind+"-panic", cas, func() {
					var m = make(cxm.Model) // is not used
					for j := 0; j < 15; j++ {
						cxm.Step(r, p, m, db)
						db.Amount()
						db.Volume()
					}
				})
			}(k.Rng("conc", n, round, g))
		}
		wg.Wait()
		if !compare(k, db, kind, cas, "concurrent") {
			return
		}
		if path != "" {
			if err := db.Reopen(); err != nil {
				k.Violate("reopen", cas, "%v", err)
				return
			}
			k.Count("reopenings", 1)
			if !compare(k, db, kind, cas, "reopened") {
				return
			}
		}
	}
	k.Count("concurrent_histories", 1)
	k.Case(true, cas)
}
