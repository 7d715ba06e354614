// C16: walking an object tree visits exactly what is reachable
package main

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/graphm"
	"verif/kit"
	"verif/regm"

	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

type H = cipher.SHA256

func main() {
	kit.Main("C16", kit.Opts{
		Rule: "random types and random graphs of objects (shared objects, blank references, lists of different degrees and fullness, dynamic references) are " +
			"walked; the visits are compared with the ones recorded when the graph was made; non-trivial if there are three or more visits; " +
			"distinct by the visits",
		Need: []string{"walks", "refusals", "stops", "errors", "storage_errors", "splits", "split_known", "split_errors", "visits", "lists_updated",
			"top_root", "top_ref", "top_refs", "top_dynamic"},
		MinCases: 1000,
		Watchdog: 14 * time.Minute,
	}, run)
}

func run(k *kit.K) {
	for i := 0; i < k.N(1200, 60000) && k.Bad() < 20; i++ {
		k.Within("hang", fmt.Sprint(i), time.Minute, func() { graph(k, k.Rng("graph", i)) })
	}
	for i := 0; i < k.N(3000, 60000) && k.Bad() < 20; i++ {
		k.Within("hang", fmt.Sprint(i), time.Minute, func() { list(k, k.Rng("list", i)) })
	}
}

// a start of a walk
type top struct {
	what  string
	nodes []*graphm.Node
	walk  func(p registry.Pack, f registry.WalkFunc) error
	split func(s registry.Splitter)
}

func graph(k *kit.K, r *rand.Rand) {
	var s = regm.NewSet(r, regm.Cfg{Max: 5, Refs: r.Intn(4) > 0})
	var reg = s.Registry(s.Order())
	if r.Intn(2) == 0 {
		var err error
		if reg, err = registry.DecodeRegistry(reg.Encode()); err != nil {
			k.Violate("decode", s.String(), "%v", err)
			return
		}
	}
	var p = regm.NewPack(reg)
	p.Fl = registry.Flags(r.Intn(8))
	var g = graphm.New(r, s, reg, func(b []byte) H { var h, _ = p.Add(b); return h })
	g.Gap = true
	for i := 1 + r.Intn(25); i > 0; i-- {
		g.Add()
	}
	if len(g.Objs) == 0 {
		return
	}
	for i := 0; i < 4; i++ {
		var t top
		switch r.Intn(4) {
		case 0:
			var rt registry.Root
			var left = 3000
			for j := r.Intn(5); j >= 0; j-- {
				var d, n = g.Dynamic(left)
				rt.Refs = append(rt.Refs, d)
				t.nodes = append(t.nodes, n)
				left -= n.Size
			}
			t.what = "root"
			t.walk = rt.Walk
			t.split = func(s registry.Splitter) {
				for i := range rt.Refs {
					rt.Refs[i].Split(s)
				}
			}
		case 1:
			var o = g.Objs[r.Intn(len(g.Objs))]
			var x, n = g.Ref(o.T.Name, g.Max)
			t.what, t.nodes = "ref", []*graphm.Node{n}
			var sc, _ = reg.SchemaByName(o.T.Name)
			t.walk = func(p registry.Pack, f registry.WalkFunc) error { return x.Walk(p, sc, f) }
			t.split = func(s registry.Splitter) { x.Split(s, sc) }
		case 2:
			var o = g.Objs[r.Intn(len(g.Objs))]
			var x, n = g.Refs(o.T.Name, r.Intn(20), 3000)
			t.what, t.nodes = "refs", []*graphm.Node{n}
			var sc, _ = reg.SchemaByName(o.T.Name)
			t.walk = func(p registry.Pack, f registry.WalkFunc) error { var x = x; return x.Walk(p, sc, f) }
			t.split = func(s registry.Splitter) { var x = x; x.Split(s, sc) }
		case 3:
			var d, n = g.Dynamic(g.Max)
			t.what, t.nodes = "dynamic", []*graphm.Node{n}
			t.walk, t.split = d.Walk, d.Split
		}
		k.Count("top_"+t.what, 1)
		try(k, r, g, p, &t)
	}
}

func desc(g *graphm.G, t *top, how string) string {
	var ns []string
	for _, n := range t.nodes {
		ns = append(ns, fmt.Sprintf("%s/%d", n.Hash.Hex()[:6], n.Depth))
	}
	return g.String() + "\n" + t.what + " " + strings.Join(ns, " ") + ": " + how
}

func show(x graphm.Key) string { return fmt.Sprintf("%s (depth %d)", x.Hash.Hex()[:6], x.Depth) }

func try(k *kit.K, r *rand.Rand, g *graphm.G, p *regm.Pack, t *top) {
	var all, _, _ = graphm.Visits(t.nodes, nil)
	var total int
	var hashes []H
	for x, n := range all {
		total += n
		hashes = append(hashes, x.Hash)
	}
	sortH(hashes)
	var cas = fmt.Sprint(t.what, hashes)
	k.Case(total >= 3, cas)
	k.Count("visits", total)

	// plain
	check(k, g, p, t, nil, "walk")
	k.Count("walks", 1)

	// refusals
	for i := 0; i < 2; i++ {
		var refuse = map[H]bool{}
		for j := 1 + r.Intn(3); j > 0; j-- {
			refuse[hashes[r.Intn(len(hashes))]] = true
		}
		check(k, g, p, t, refuse, "refusals "+set(refuse))
		k.Count("refusals", 1)
	}

	// stop or fail
	for i := 0; i < 3; i++ {
		var at, n = 1 + r.Intn(total), 0
		var er, want error = registry.ErrStopIteration, nil
		if i == 1 {
			er = errors.New("custom")
			want = er
		}
		var deeper = r.Intn(2) == 0
		var err error
		var how = fmt.Sprintf("%v at visit %d of %d", er, at, total)
		if !k.Guard("panic", desc(g, t, how), func() {
			err = t.walk(p, func(H, int) (bool, error) {
				if n++; n >= at {
					return deeper, er
				}
				return true, nil
			})
		}) {
			return
		}
		if err != want {
			k.Violate("stop", desc(g, t, how), "the walk returns %v, want %v", err, want)
		}
		if n != at {
			k.Violate("stop", desc(g, t, how), "the visitor is called %d times", n)
		}
		if i == 1 {
			k.Count("errors", 1)
		} else {
			k.Count("stops", 1)
		}
	}

	// storage
	var broken H
	for i := 0; i < 5 && broken == (H{}); i++ {
		broken = hashes[r.Intn(len(hashes))]
	}
	if broken != (H{}) {
		var er = errors.New("storage")
		p.Broken[broken] = er
		storage(k, g, p, t, broken, er, all)
		splitBroken(k, r, g, p, t, broken, er)
		delete(p.Broken, broken)
	}

	split(k, r, g, p, t, nil)
	var known = map[H]bool{}
	for j := 1 + r.Intn(3); j > 0; j-- {
		known[hashes[r.Intn(len(hashes))]] = true
	}
	split(k, r, g, p, t, known)
}

func sortH(hs []H) {
	for i := range hs {
		for j := i; j > 0 && hs[j].Hex() < hs[j-1].Hex(); j-- {
			hs[j], hs[j-1] = hs[j-1], hs[j]
		}
	}
}

func set(m map[H]bool) string {
	var ss []string
	for h := range m {
		ss = append(ss, h.Hex()[:6])
	}
	return strings.Join(ss, " ")
}

func check(k *kit.K, g *graphm.G, p *regm.Pack, t *top, refuse map[H]bool, how string) {
	var want, parents, _ = graphm.Visits(t.nodes, refuse)
	var got = map[graphm.Key]int{}
	var calls int
	var early string
	var err error
	if !k.Guard("panic", desc(g, t, how), func() {
		err = t.walk(p, func(h H, d int) (bool, error) {
			var x = graphm.Key{Hash: h, Depth: d}
			if calls++; calls > 20000 {
				return false, errors.New("too many visits")
			}
			var ok = len(parents[x]) == 0 || parents[x][graphm.Key{}]
			for up := range parents[x] {
				ok = ok || got[up] > 0
			}
			if !ok && early == "" {
				early = show(x)
			}
			got[x]++
			return !refuse[h], nil
		})
	}) {
		return
	}
	if err != nil {
		k.Violate("error", desc(g, t, how), "the walk fails: %v", err)
		return
	}
	for x, n := range got {
		if want[x] < n {
			k.Violate("extra", desc(g, t, how), "%s is visited %d times, want %d", show(x), n, want[x])
			return
		}
	}
	for x, n := range want {
		if got[x] < n {
			k.Violate("missed", desc(g, t, how), "%s is visited %d times, want %d", show(x), got[x], n)
			return
		}
	}
	if early != "" {
		k.Violate("early", desc(g, t, how), "%s is visited before everything that refers to it", early)
	}
}

func storage(k *kit.K, g *graphm.G, p *regm.Pack, t *top, broken H, er error, all map[graphm.Key]int) {
	var how = "broken " + broken.Hex()[:6]
	var _, _, read = graphm.Visits(t.nodes, nil)
	var got = map[graphm.Key]int{}
	var err error
	if !k.Guard("panic", desc(g, t, how), func() {
		err = t.walk(p, func(h H, d int) (bool, error) {
			got[graphm.Key{Hash: h, Depth: d}]++
			return true, nil
		})
	}) {
		return
	}
	if err != nil && err != er {
		k.Violate("storage", desc(g, t, how), "the walk returns %v, the storage has returned %v", err, er)
	}
	if err == nil && read[broken] {
		k.Violate("storage", desc(g, t, how), "failure of the storage is not returned")
	}
	for x, n := range got {
		if all[x] < n {
			k.Violate("extra", desc(g, t, how), "%s is visited %d times, want %d", show(x), n, all[x])
			return
		}
		if err == nil && all[x] != n {
			k.Violate("missed", desc(g, t, how), "%s is visited %d times, want %d", show(x), n, all[x])
			return
		}
	}
	k.Count("storage_errors", 1)
}

//
// parallel
//

type splitter struct {
	p     *regm.Pack
	known map[H]bool
	delay func()
	wg    sync.WaitGroup
	in    chan struct{}

	mx    sync.Mutex
	got   map[H]int
	fails []error
	n     int
	panic string
}

func (s *splitter) Registry() *registry.Registry { return s.p.Reg }

func (s *splitter) see(key H) (rc int) {
	s.delay()
	s.mx.Lock()
	defer s.mx.Unlock()
	s.got[key]++
	s.n++
	if s.known[key] {
		rc = 2
	}
	return
}

func (s *splitter) Pre(key H) (rc int, err error) {
	rc = s.see(key)
	_, err = s.p.Get(key)
	return
}

func (s *splitter) Get(key H) (val []byte, rc int, err error) {
	rc = s.see(key)
	val, err = s.p.Get(key)
	return
}

func (s *splitter) Fail(err error) {
	s.mx.Lock()
	defer s.mx.Unlock()
	s.fails = append(s.fails, err)
}

func (s *splitter) Go(f func()) {
	var g = func() {
		defer func() {
			if x := recover(); x != nil {
				var b = make([]byte, 8192)
				s.mx.Lock()
				s.panic = fmt.Sprintf("%v\n%s", x, b[:runtime.Stack(b, false)])
				s.mx.Unlock()
			}
		}()
		f()
	}
	select {
	case s.in <- struct{}{}:
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			defer func() { <-s.in }()
			g()
		}()
	default:
		g()
	}
}

func doSplit(k *kit.K, r *rand.Rand, g *graphm.G, p *regm.Pack, t *top, known map[H]bool, how string) (s *splitter) {
	s = &splitter{p: p, known: known, in: make(chan struct{}, 1+r.Intn(8)), got: make(map[H]int)}
	var mode = r.Intn(3)
	s.delay = func() {
		if mode == 1 {
			runtime.Gosched()
		}
	}
	if !k.Guard("panic", desc(g, t, how), func() { t.split(s) }) {
		return nil
	}
	s.wg.Wait()
	if s.panic != "" {
		k.Violate("panic", desc(g, t, how), "panic: %s", s.panic)
		return nil
	}
	return
}

func split(k *kit.K, r *rand.Rand, g *graphm.G, p *regm.Pack, t *top, known map[H]bool) {
	var how = "split, known: " + set(known)
	var s = doSplit(k, r, g, p, t, known, how)
	if s == nil {
		return
	}
	if len(s.fails) > 0 {
		k.Violate("split", desc(g, t, how), "the split fails: %v", s.fails[0])
		return
	}
	var want, _, _ = graphm.Visits(t.nodes, known)
	var hs = map[H]bool{}
	for x := range want {
		if x.Hash != (H{}) {
			hs[x.Hash] = true
			if s.got[x.Hash] == 0 {
				k.Violate("split", desc(g, t, how), "%s is not requested", show(x))
				return
			}
		}
	}
	for h := range s.got {
		if !hs[h] {
			k.Violate("split", desc(g, t, how), "%s is requested, but should not", h.Hex()[:6])
			return
		}
	}
	k.Count("splits", 1)
	if len(known) > 0 {
		k.Count("split_known", 1)
	}
}

func splitBroken(k *kit.K, r *rand.Rand, g *graphm.G, p *regm.Pack, t *top, broken H, er error) {
	var how = "split, broken " + broken.Hex()[:6]
	var s = doSplit(k, r, g, p, t, nil, how)
	if s == nil {
		return
	}
	if len(s.fails) == 0 {
		k.Violate("split", desc(g, t, how), "failure of the storage is not reported")
		return
	}
	for _, err := range s.fails {
		if err != er {
			k.Violate("split", desc(g, t, how), "%v is reported, the failure is %v", err, er)
		}
	}
	var all, _, _ = graphm.Visits(t.nodes, nil)
	var hs = map[H]bool{}
	for x := range all {
		hs[x.Hash] = true
	}
	for h := range s.got {
		if !hs[h] {
			k.Violate("split", desc(g, t, how), "%s is requested, but should not", h.Hex()[:6])
			return
		}
	}
	k.Count("split_errors", 1)
}
