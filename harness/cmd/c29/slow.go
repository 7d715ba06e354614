package main

import (
	"fmt"
	"sort"
	"sync"
	"time"

	"verif/nodem"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"
)

// a peer that accepts subscriptions in time, too late or never; both sides
// have to agree about the subscriptions anyway. The peer keeps its own list
// by the messages it receives, as the node does
func (t *test) slow() {
	var r = t.r
	var n = t.Node(nodem.Opt{Timeout: 150 * time.Millisecond, Loose: true})
	for i := 0; i < 3; i++ {
		var pk nodem.PK
		r.Read(pk[:])
		t.feeds = append(t.feeds, pk)
		n.Share(pk)
	}
	var p, err = nodem.Dial(n.TCPAddr(), nil)
	if err == nil {
		var id nodem.PK
		r.Read(id[:])
		_, err = p.Hello(id)
	}
	var c *node.Conn
	if err != nil || !nodem.Wait(10*time.Second, func() bool {
		if cs := n.Connections(); len(cs) == 1 {
			c = cs[0]
		}
		return c != nil
	}) {
		t.Report("slow", "can't connect: %v", err)
		return
	}
	defer p.Close()
	var mx sync.Mutex
	var mine = make(map[nodem.PK]bool) // the list of the peer
	var seed = r.Int63()
	var at int64
	go func() {
		for {
			var f nodem.Frame
			select {
			case f = <-p.In:
			case <-p.Done:
				return
			}
			switch m := f.M.(type) {
			case *msg.Sub:
				at++
				var what = (seed >> uint(at*3%60)) & 7
				if what < 3 {
					// too late, an Unsub is received before or after the answer
					time.Sleep(time.Duration(120+what*40) * time.Millisecond)
					t.k.Count("late_answers", 1)
				} else if what == 3 {
					t.k.Count("no_answers", 1)
					mx.Lock() // but accepts
					mine[m.Feed] = true
					mx.Unlock()
					continue
				} else if mx.Lock(); what == 4 && !mine[m.Feed] {
					mx.Unlock()
					p.Send(f.Seq, &msg.Err{Err: "no"})
					continue
				} else {
					mx.Unlock()
				}
				mx.Lock()
				mine[m.Feed] = true
				mx.Unlock()
				p.Send(f.Seq, &msg.Ok{})
			case *msg.Unsub:
				mx.Lock()
				delete(mine, m.Feed)
				mx.Unlock()
				t.k.Count("raw_unsubs", 1)
			}
		}
	}()
	var sig = "slow"
	for i := 2 + r.Intn(6); i > 0; i-- {
		var f = r.Intn(len(t.feeds))
		var err error
		var x = r.Intn(4)
		switch x {
		case 3:
			c.Unsubscribe(t.feeds[f])
		default:
			err = c.Subscribe(t.feeds[f])
		}
		sig += fmt.Sprint(" ", x, f, err)
		t.Logf("%d of feed %d: %v", x, f, err)
	}
	var has, want []string
	if !nodem.Wait(3*time.Second, func() bool {
		has, want = nil, nil
		for _, pk := range c.Feeds() {
			has = append(has, pk.Hex()[:6])
		}
		mx.Lock()
		for pk := range mine {
			want = append(want, pk.Hex()[:6])
		}
		mx.Unlock()
		sort.Strings(has)
		sort.Strings(want)
		return fmt.Sprint(has) == fmt.Sprint(want)
	}) {
		t.Report("slow-peer", "the connection has feeds %v, the peer believes in %v\n%s", has, want, t.Log())
	}
	t.k.Count("slow_peers", 1)
	t.k.Case(len(want) > 0, sig)
	p.Close()
	t.Close()
}
