package main

import (
	"fmt"
	"sync/atomic"
	"time"

	"verif/nodem"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"
)

// hostile peers announce a genuine root first, and answer the requests in
// one bad way; the root must be filled from the good peer anyway, there are
// neither next roots nor a time limit of the filling to rescue
func (t *test) stall() {
	var r = t.r
	t.f = &nodem.Feed{}
	var par = r.Intn(4)
	t.a = t.Node(nodem.Opt{Timeout: time.Duration(300+r.Intn(500)) * time.Millisecond, Loose: true, Conf: func(c *node.Config) {
		c.MaxConnections, c.MaxPendingConnections = 0, 0
		c.MaxFillingTime = 10 * time.Minute
		c.MaxFillingParallel = par
	}})
	t.g = t.Node(nodem.Opt{Timeout: 10 * time.Second, Loose: true})
	t.f = t.Feed(1, true)
	t.g.Share(t.f.PK)
	t.a.Share(t.f.PK)
	var _, err = t.a.Connect(t.g, false)
	if err == nil && nodem.Wait(10*time.Second, func() bool { return t.g.Conn(t.a) != nil }) {
		err = t.a.Conn(t.g).Subscribe(t.f.PK)
	}
	if err != nil {
		t.Report("link", "%v", err)
		return
	}
	var ps []*nodem.Raw
	var sig = fmt.Sprint("stall ", par)
	var requests int32
	for i := 1 + r.Intn(3); i > 0; i-- {
		var p, err = nodem.Dial(t.a.TCPAddr(), nil)
		if err != nil {
			t.Report("probe-dial", "%v", err)
			return
		}
		defer p.Close()
		var id nodem.PK
		r.Read(id[:])
		if _, err = p.Hello(id); err != nil {
			t.Report("probe-handshake", "%v", err)
			return
		}
		if m, err := p.Ask(&msg.Sub{Feed: t.f.PK}, 20*time.Second); err != nil {
			t.Report("probe", "no answer for a subscription: %T %v", m, err)
			return
		}
		var what = r.Intn(9)
		var delay = time.Duration(r.Intn(3)*r.Intn(50)) * time.Millisecond
		sig += fmt.Sprint(" ", what)
		ps = append(ps, p)
		go func() {
			for {
				var f nodem.Frame
				select {
				case f = <-p.In:
				case <-p.Done:
					return
				}
				var q, ok = f.M.(*msg.RqObject)
				if !ok {
					continue
				}
				atomic.AddInt32(&requests, 1)
				time.Sleep(delay)
				switch what {
				case 0:
					p.Send(f.Seq, &msg.Ok{})
				case 1:
					p.Send(f.Seq, &msg.List{})
				case 2:
					p.Send(f.Seq, rootMsg(t.f.Newest().R))
				case 3:
					p.Send(f.Seq, &msg.Err{Err: "no"})
				case 4:
					p.Send(f.Seq, &msg.Object{Value: []byte("garbage")})
				case 5:
					p.Send(f.Seq, &msg.Object{})
				case 6: // silence
				case 7:
					p.Close()
				case 8: // each second
					if v, ok := t.f.Value(q.Key); ok && q.Key[0]&1 == 0 {
						p.Send(f.Seq, &msg.Object{Value: v})
					} else {
						p.Send(f.Seq, &msg.Ack{})
					}
				}
			}
		}()
	}
	for i := 1 + r.Intn(2); i > 0 && t.Bad() == 0; i-- {
		var x = t.Save(t.g, t.f, uint64(1+r.Intn(2)))
		if x == nil {
			return
		}
		var late = r.Intn(3) == 0 // the good one is the first
		if late {
			t.g.Node.Publish(x.R)
			time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
		}
		for _, p := range ps {
			p.Send(0, rootMsg(x.R))
		}
		if !late {
			time.Sleep(time.Duration(r.Intn(3)*r.Intn(40)) * time.Millisecond)
			t.g.Node.Publish(x.R)
		}
		if !nodem.Wait(30*time.Second, func() bool { return t.a.Has(x) }) {
			t.Report("stalled", "root %d/%d of a good peer is not filled: hostile peers (%s) answer requests in a bad way\n%s", x.R.Nonce, x.R.Seq, sig, t.CB())
			return
		}
		t.CheckRoot(t.a, t.f, x)
		t.k.Count("stall_roots", 1)
	}
	t.k.Count("stall_requests", int(atomic.LoadInt32(&requests)))
	for _, p := range ps {
		p.Close()
	}
	t.Close()
	t.k.Case(requests > 0, fmt.Sprint(sig, requests))
}

// versions of the protocol
func (t *test) versions() {
	var r = t.r
	t.f = &nodem.Feed{}
	t.a = t.Node(nodem.Opt{Timeout: time.Second, Loose: true})
	for _, v := range []uint16{0, 1, 2, 3, 4, 100, 1 << 15, ^uint16(0), msg.Version, uint16(r.Intn(1 << 16)), uint16(r.Intn(6))} {
		var p, err = nodem.Dial(t.a.TCPAddr(), nil)
		if err != nil {
			t.Report("probe-dial", "%v", err)
			return
		}
		var id nodem.PK
		r.Read(id[:])
		var seq = p.Send(0, &msg.Syn{Protocol: v, NodeID: id})
		var f, werr = p.Wait(10*time.Second, func(f nodem.Frame) bool { return f.Rseq == seq })
		var _, ack = f.M.(*msg.Ack)
		if same := v == msg.Version; same && (werr != nil || !ack) {
			t.Report("version", "a peer of the same version %d is refused: %T %v", v, f.M, werr)
		} else if !same && ack {
			t.Report("version", "a peer of version %d is accepted by a node of version %d", v, msg.Version)
		} else if !same && !p.Closed(20*time.Second) {
			t.Report("version", "connection with a peer of version %d is not closed", v)
		}
		t.k.Count("versions", 1)
		p.Close()
	}
	t.Close()
}
