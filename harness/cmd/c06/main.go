// C06: object stores against a model, sequential and linearizable.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/skycoin/cxo/data"

	"verif/cxm"
	"verif/kit"
)

func main() {
	kit.Main("C06", kit.Opts{
		Rule: "random histories of all operations over a small pool of objects " +
			"(edge keys included) on the memory store and on the on-drive one, " +
			"compared with a map after every operation, with reopenings; plus " +
			"concurrent histories checked for linearizability per object; " +
			"non-trivial if an object was deleted or its counter went to zero",
		MinCases: 100,
		Need: []string{"operations", "reopenings", "deleted", "killed",
			"linearizable_histories"},
	}, run)
}

func run(k *kit.K) {
	for i := 0; i < k.N(300, 6000); i++ {
		history(k, i, "")
		history(k, i, filepath.Join(os.TempDir(), fmt.Sprint("a", i)))
	}
	for i := 0; i < k.N(150, 2500); i++ {
		concurrent(k, i, "")
		concurrent(k, i, filepath.Join(os.TempDir(), fmt.Sprint("b", i)))
	}
}

func history(k *kit.K, n int, path string) {
	var (
		r       = k.Rng("hist", n)
		p       = cxm.NewPool(r, 1+r.Intn(12))
		m       = make(cxm.Model)
		ops     []string
		kind    = "memory"
		killed  int
		deleted int
	)
	if path != "" {
		kind = "drive"
	}
	var db, err = cxm.Open(path)
	if err != nil {
		k.Violate(kind+"-open", "", "%v", err)
		return
	}
	defer db.Destroy()
	var cas = func() string {
		if len(ops) > 40 {
			return kind + " ... " + strings.Join(ops[len(ops)-40:], " ")
		}
		return kind + " " + strings.Join(ops, " ")
	}
	var ok = k.Guard(kind+"-panic", "", func() {
		for i := 0; i < 30+r.Intn(80); i++ {
			var ln = len(m)
			var before = m.Clone()
			var op, bad = cxm.Step(r, p, m, db)
			ops = append(ops, op)
			k.Count("operations", 1)
			if bad != "" {
				k.Violate(kind+"-"+op[:3], cas(), "%s: %s; content before %s",
					op, bad, before)
				return
			}
			if len(m) < ln {
				deleted++
			}
			for key, o := range m {
				if o.RC == 0 && before[key].RC > 0 {
					killed++
				}
			}
			if i%10 == 0 || len(m) < ln {
				if bad = cxm.Compare(db, m); bad != "" {
					k.Violate(kind+"-content", cas(), "%s; before %s, must be %s",
						bad, before, m)
					return
				}
			}
			if path != "" && r.Intn(30) == 0 {
				ops = append(ops, "reopen")
				if err := db.Reopen(); err != nil {
					k.Violate("reopen", cas(), "%v", err)
					return
				}
				k.Count("reopenings", 1)
				if bad = cxm.Compare(db, m); bad != "" {
					k.Violate(kind+"-reopen-content", cas(), "%s", bad)
					return
				}
			}
		}
	})
	k.Count("killed", killed)
	k.Count("deleted", deleted)
	k.Case(ok && killed+deleted > 0, cas())
	if n == 0 {
		k.Sample(cas())
	}
}

// linearizability

type in struct {
	op  byte // g - get, s - set, i - inc, d - del
	key int
	inc int
}

type out struct {
	rc  uint32
	err error
	val bool
}

type state struct {
	ok bool
	rc uint32
}

func add(rc uint32, inc int) uint32 {
	if inc < 0 {
		if uint32(-inc) >= rc {
			return 0
		}
		return rc - uint32(-inc)
	}
	return rc + uint32(inc)
}

var model = porcupine.Model{
	Partition: func(h []porcupine.Operation) (ps [][]porcupine.Operation) {
		var m = map[int][]porcupine.Operation{}
		for _, o := range h {
			var key = o.Input.(in).key
			m[key] = append(m[key], o)
		}
		for _, p := range m {
			ps = append(ps, p)
		}
		return
	},
	Init: func() interface{} { return state{} },
	Step: func(s, i, o interface{}) (bool, interface{}) {
		var st, in, out = s.(state), i.(in), o.(out)
		switch in.op {
		case 'd':
			return out.err == nil, state{}
		case 's':
			st = state{true, add(st.rc, in.inc)}
			return out.err == nil && out.rc == st.rc, st
		default:
			if !st.ok {
				return out.err == data.ErrNotFound && out.rc == 0, st
			}
			st.rc = add(st.rc, in.inc)
			return out.err == nil && out.rc == st.rc &&
				(in.op != 'g' || out.val), st
		}
	},
	DescribeOperation: func(i, o interface{}) string {
		var in, out = i.(in), o.(out)
		return fmt.Sprintf("%c(%d,%d) -> rc %d, %v", in.op, in.key, in.inc,
			out.rc, out.err)
	},
}

func concurrent(k *kit.K, n int, path string) {
	var (
		r    = k.Rng("conc", n)
		p    = cxm.NewPool(r, 1+r.Intn(4))
		kind = "memory"
		gs   = 2 + r.Intn(5)
		mx   sync.Mutex
		hist []porcupine.Operation
		wg   sync.WaitGroup
		t0   = time.Now()
	)
	if path != "" {
		kind = "drive"
	}
	var db, err = cxm.Open(path)
	if err != nil {
		k.Violate(kind+"-open", "", "%v", err)
		return
	}
	defer db.Destroy()
	for g := 0; g < gs; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			var r = k.Rng("conc", n, g)
			k.Guard(kind+"-panic", "", func() {
				for j := 0; j < 12; j++ {
					var (
						i in
						o out
						v []byte
					)
					i.key = r.Intn(len(p.Keys))
					i.inc = r.Intn(7) - 3
					var key, val = p.Keys[i.key], p.Vals[i.key]
					i.op = "sssggiiiid"[r.Intn(10)]
					if i.op == 's' && i.inc <= 0 {
						i.inc = 1 - i.inc
					}
					var call = time.Since(t0).Nanoseconds()
					switch i.op {
					case 's':
						o.rc, o.err = db.Set(key, val, i.inc)
					case 'g':
						v, o.rc, o.err = db.Get(key, i.inc)
						o.val = bytes.Equal(v, val)
					case 'i':
						o.rc, o.err = db.Inc(key, i.inc)
					case 'd':
						o.err = db.Del(key)
					}
					var ret = time.Since(t0).Nanoseconds()
					mx.Lock()
					hist = append(hist, porcupine.Operation{ClientId: g,
						Input: i, Call: call, Output: o, Return: ret})
					mx.Unlock()
					if r.Intn(3) == 0 {
						runtime.Gosched()
					}
				}
			})
		}(g)
	}
	wg.Wait()
	k.Count("operations", len(hist))
	var res, _ = porcupine.CheckOperationsVerbose(model, hist, time.Minute)
	var cas = fmt.Sprintf("%s, %d goroutines, %d objects", kind, gs, len(p.Keys))
	k.Case(true, fmt.Sprint(cas, n, hist))
	switch res {
	case porcupine.Ok:
		k.Count("linearizable_histories", 1)
	case porcupine.Illegal:
		var s []string
		for _, o := range hist {
			s = append(s, fmt.Sprintf("[%d..%d] %s", o.Call, o.Return,
				model.DescribeOperation(o.Input, o.Output)))
		}
		k.Violate(kind+"-linearizability", cas, "%s", strings.Join(s, "\n"))
	default:
		k.Count("unknown_histories", 1)
	}
}
