// C35: concurrent use
package main

import (
	"sync/atomic"
	"time"

	"verif/kit"
)

func main() {
	kit.Main("C35", kit.Opts{
		Rule: "built with the race detector: users of one container that save, read, walk, fill, preview, clean and delete at the same time, each of them watches its own feed; networks of nodes with users that call everything " +
			"of nodes, connections, transports, swarms, RPC and their containers at random, callbacks included, while roots are published; and the workloads of other checks of nodes and containers; " +
			"races, crashes, calls that hang and ends of the process are violations; non-trivial if calls of several users overlapped; distinct by the calls that overlapped",
		Need: []string{"container_calls", "containers", "bolt", "memory", "overlapped", "own_saves", "own_walks", "fills", "previews", "registries", "cleanings",
			"node_calls", "worlds", "roots_received", "callbacks", "late", "workloads"},
		MinCases: 60,
		Watchdog: 14 * time.Minute,
	}, run)
}

var only = envInt("C35_ONLY", 7) // parts, to debug

func run(k *kit.K) {
	var done = make(chan struct{})
	if only&4 != 0 {
		go func() { // processes
			defer close(done)
			workloads(k)
		}()
	} else {
		close(done)
	}
	if only&1 != 0 {
		var next int32 = -1
		parallel(3, func() {
			for i := int(atomic.AddInt32(&next, 1)); i < k.N(70, 2500) && k.Bad() < 5; i = int(atomic.AddInt32(&next, 1)) {
				(&users{k: k, r: k.Rng("users", i), n: i}).run()
			}
		})
	}
	if only&2 != 0 {
		var next int32 = -1
		parallel(4, func() {
			for i := int(atomic.AddInt32(&next, 1)); i < k.N(80, 3000) && k.Bad() < 5; i = int(atomic.AddInt32(&next, 1)) {
				nodes(k, i)
			}
		})
	}
	<-done
}
