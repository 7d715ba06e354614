// C32: closing at any moment
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/kit"
	"verif/nodem"
)

func main() {
	kit.Main("C32", kit.Opts{
		Rule: "worlds of one to three nodes with databases in files, in memory and with an instrumented store, TCP, UDP, RPC, swarms, hostile and silent peers, under random calls of the API from many goroutines; " +
			"connections and nodes are closed at random moments by one to three goroutines; containers closed under concurrent use; constructors that fail; " +
			"goroutines, descriptors, temporary files, ports and databases are looked at afterwards; non-trivial if calls were in progress during closing; distinct by the case and what was in progress",
		Need: []string{"nodes_closed", "closed_by_many", "busy_closings", "calls", "late_calls", "blocked_calls", "reopened_files", "reopened_store", "roots_checked", "fillings_checked", "walked_roots", "rebound",
			"peers_noticed", "containers", "container_calls", "container_late_calls", "container_roots", "failed_constructors", "goroutines_checked", "rpc_calls"},
		MinCases: 60,
		Watchdog: 14 * time.Minute,
	}, run)
}

func run(k *kit.K) {
	var tmp, err = os.MkdirTemp("", "c32")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	var scratch = filepath.Join(tmp, "tmp")
	os.Mkdir(scratch, 0700)
	os.Setenv("TMPDIR", scratch)

	var fds = -1
	for b := 0; b < k.N(80, 700) && k.Bad() == 0; b++ {
		var wg sync.WaitGroup
		var names []string
		for i := 0; i < 8; i++ {
			var name = fmt.Sprintf("case %d.%d", b, i)
			var r = k.Rng(b, i)
			var f = func() { (&test{k: k, r: r, dir: tmp}).nodes(name) }
			switch {
			case i == 6:
				f = func() { (&test{k: k, r: r, dir: tmp}).container(name) }
				name += " container"
			case i == 7:
				f = func() { (&test{k: k, r: r, dir: tmp}).failing(name) }
				name += " failing"
			}
			names = append(names, name)
			wg.Add(1)
			go func() {
				defer wg.Done()
				k.Within("hang", name, 5*time.Minute, f)
			}()
		}
		wg.Wait()
		if k.Bad() > 0 {
			return
		}
		var cas = strings.Join(names, ", ")
		// everything is released
		var left string
		if !nodem.Wait(20*time.Second, func() bool { left = leaked(); return left == "" }) {
			k.Violate("goroutines", cas, "goroutines remain after everything was closed:\n%s", left)
			return
		}
		k.Count("goroutines_checked", 1)
		var open []string
		if !nodem.Wait(20*time.Second, func() bool { open = descriptors(); return fds < 0 || len(open) <= fds }) {
			k.Violate("descriptors", cas, "descriptors remain after everything was closed: %d, %d before\n%s", len(open), fds, strings.Join(open, "\n"))
			return
		}
		if fds < 0 {
			fds = len(open)
		}
		if es, err := os.ReadDir(scratch); err != nil || len(es) > 0 {
			var ns []string
			for _, e := range es {
				ns = append(ns, e.Name())
			}
			k.Violate("files", cas, "temporary files remain after everything was closed: %v %v", ns, err)
			return
		}
	}
}

// goroutines of the tested code
func leaked() string {
	var out []string
	for _, g := range strings.Split(kit.Stacks(), "\n\n") {
		if strings.Contains(g, "skycoin/cxo/") || strings.Contains(g, "skycoin/net/") {
			out = append(out, g)
		}
	}
	if len(out) > 10 {
		out = append(out[:10], fmt.Sprint(len(out)-10, " more"))
	}
	return strings.Join(out, "\n\n")
}

func descriptors() (ls []string) {
	var es, _ = os.ReadDir("/proc/self/fd")
	for _, e := range es {
		var l, err = os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && !strings.HasPrefix(l, "/proc/") {
			ls = append(ls, e.Name()+" "+l)
		}
	}
	return
}

type test struct {
	k   *kit.K
	r   *rand.Rand
	dir string
}
