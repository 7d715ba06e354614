// C09: index database against a model.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/idxdb"

	"verif/idxm"
	"verif/kit"
)

func main() {
	kit.Main("C09", kit.Opts{
		Rule: "random transactions over a small pool of feeds, nonces and " +
			"sequence numbers (edge values included), with mutations from " +
			"within iterations, ended by success, error or panic, and " +
			"reopenings; everything is compared with a sorted map of maps " +
			"inside and after every transaction; non-trivial if the index " +
			"had at least three roots",
		MinCases: 100,
		Need:     []string{"committed", "rolled_back", "reopenings", "roots"},
	}, run)
}

func run(k *kit.K) {
	for i := 0; i < k.N(1500, 30000); i++ {
		k.Within("hang", fmt.Sprint(i), time.Minute, func() {
			history(k, i)
		})
	}
}

func history(k *kit.K, n int) {
	var (
		r    = k.Rng("hist", n)
		p    = idxm.NewPool(r)
		m    = make(idxm.Feeds)
		path = filepath.Join(os.TempDir(), fmt.Sprint("idx", n))
		mem  = n%4 == 3
		txs  []string
		most int
		db   data.IdxDB
		err  error
	)
	if mem {
		db = idxdb.NewMemeoryDB()
	} else if db, err = idxdb.NewDriveIdxDB(path); err != nil {
		k.Violate("open", "", "%v", err)
		return
	}
	defer os.Remove(path)
	defer func() { db.Close() }()
	var cas = func() string {
		var s = strings.Join(txs, " ")
		if len(s) > 3000 {
			s = "... " + s[len(s)-3000:]
		}
		return s
	}
	k.Guard("panic", fmt.Sprint(n), func() {
		for i := 0; i < 5+r.Intn(10); i++ {
			var nm, desc, bad, committed = idxm.Tx(r, p, m, db, 40, true)
			txs = append(txs, desc)
			if bad != "" {
				k.Violate("tx", cas(), "%s; content before the transaction: %s",
					bad, m)
				return
			}
			if m = nm; committed {
				k.Count("committed", 1)
			} else {
				k.Count("rolled_back", 1)
			}
			if r.Intn(5) == 0 && !mem {
				if err := db.Close(); err != nil {
					k.Violate("close", cas(), "%v", err)
					return
				}
				if db, err = idxdb.NewDriveIdxDB(path); err != nil {
					k.Violate("reopen", cas(), "%v", err)
					return
				}
				k.Count("reopenings", 1)
			}
			if bad = idxm.Diff(db, m); bad != "" {
				k.Violate("content", cas(), "after the transaction: %s; must be %s",
					bad, m)
				return
			}
			var c int
			for _, hs := range m {
				for _, rs := range hs {
					c += len(rs)
				}
			}
			if c > most {
				most = c
			}
		}
	})
	k.Count("roots", most)
	k.Case(most >= 3, cas())
	if n == 0 {
		k.Sample(cas())
	}
}
