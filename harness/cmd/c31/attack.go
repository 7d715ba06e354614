package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"sync/atomic"
	"time"

	"verif/msgm"
	"verif/nodem"

	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

type attacker struct {
	*test
	r    *rand.Rand // of the script
	n    int
	p    *nodem.Raw
	bad  int // percents of wrong answers
	slow int32
}

func (x *attacker) log(f string, a ...interface{}) {
	x.Logf("attacker %d: %s", x.n, fmt.Sprintf(f, a...))
}

func (x *attacker) run() {
	for i := 1 + x.r.Intn(3); i > 0 && x.Bad() == 0; i-- {
		x.bad = []int{0, 30, 100}[x.r.Intn(3)]
		var out = x.r.Intn(4) == 0
		if !x.connect(out) {
			continue
		}
		if !x.handshake(out) {
			continue
		}
		atomic.AddInt32(&x.through, 1)
		x.k.Count("handshakes", 1)
		for j := 2 + x.r.Intn(16); j > 0 && !x.p.IsClosed() && x.Bad() == 0; j-- {
			x.step()
		}
		if x.r.Intn(3) == 0 {
			x.log("leaves")
			x.p.Close()
		} else if !x.p.IsClosed() {
			return // stay
		}
	}
}

func (x *attacker) connect(out bool) bool {
	x.slow = 0
	var c net.Conn
	var err error
	if out {
		var l, err = net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return false
		}
		defer l.Close()
		x.k.Count("outgoing", 1)
		go func() {
			var done = make(chan struct{})
			go func() {
				x.a.TCP().Connect(l.Addr().String())
				close(done)
			}()
			select {
			case <-done:
			case <-time.After(time.Minute):
				x.Report("connect-hang", "Connect to a hostile peer doesn't return")
			}
		}()
		l.(*net.TCPListener).SetDeadline(time.Now().Add(20 * time.Second))
		if c, err = l.Accept(); err != nil {
			return false
		}
	} else if c, err = net.Dial("tcp", x.a.TCPAddr()); err != nil {
		x.Report("dial", "%v", err)
		return false
	}
	var seed = x.r.Int63()
	var r = rand.New(rand.NewSource(seed)) // of the reader
	x.p = nodem.NewRaw(c, nil)
	x.mx.Lock()
	x.raws = append(x.raws, x.p)
	x.mx.Unlock()
	_ = r
	return true
}

func (x *attacker) bytes(n int) (b []byte) {
	b = make([]byte, x.r.Intn(n))
	x.r.Read(b)
	return
}

func (x *attacker) handshake(out bool) (ok bool) {
	var r = x.r
	var id nodem.PK
	r.Read(id[:])
	if r.Intn(4) > 0 {
		var err error
		if out {
			_, err = x.p.Welcome(id)
		} else {
			_, err = x.p.Hello(id)
		}
		if err != nil {
			x.Report("handshake", "good handshake fails: %v", err)
			return
		}
		x.log("comes, outgoing %v, bad %d", out, x.bad)
		go x.answers(x.p, rand.New(rand.NewSource(r.Int63())), x.bad)
		return true
	}
	var what = r.Intn(9)
	x.log("bad handshake %d, outgoing %v", what, out)
	x.k.Count("bad_handshakes", 1)
	switch what {
	case 0: // silence
		return
	case 1:
		x.p.Bytes(x.bytes(1000))
	case 2:
		x.p.Frame(x.bytes(1000))
	case 3:
		var _, b, _ = msgm.Random(r, 1+r.Intn(len(msgm.Names)-1))
		x.p.Frame(nodem.Enc(r.Uint32(), uint32(r.Intn(3)), b))
	case 4: // a part
		var b = nodem.Enc(1, 1, (&msg.Syn{Protocol: msg.Version, NodeID: id}).Encode())
		x.p.Bytes([]byte{byte(len(b)), 0, 0, 0})
		x.p.Bytes(b[:r.Intn(len(b))])
		if r.Intn(2) == 0 {
			x.p.Close()
		}
	case 5:
		x.p.Bytes([]byte{255, 255, 255, 255})
		x.p.Bytes(x.bytes(100))
	case 6: // version
		x.p.Send(0, &msg.Syn{Protocol: uint16(r.Intn(65536)), NodeID: id})
	case 7:
		x.p.Frame(msgm.Mutate(r, nodem.Enc(1, uint32(r.Intn(2)), (&msg.Syn{Protocol: msg.Version, NodeID: id}).Encode())))
	case 8: // and immediately other things
		x.p.Send(1, &msg.Syn{Protocol: msg.Version, NodeID: id})
		for i := 0; i < 5; i++ {
			var _, b, _ = msgm.Random(r, 1+r.Intn(len(msgm.Names)-1))
			x.p.Frame(nodem.Enc(r.Uint32(), uint32(r.Intn(3)), b))
		}
	}
	if r.Intn(2) == 0 {
		x.p.Close()
	}
	return
}

// answer requests of the node
func (x *attacker) answers(p *nodem.Raw, r *rand.Rand, bad int) {
	for {
		var f nodem.Frame
		select {
		case f = <-p.In:
		case <-p.Done:
			return
		}
		if f.M == nil {
			x.Report("encoding", "the node sends a message that can't be decoded: %x", f.B)
			return
		}
		var wrong = r.Intn(100) < bad
		if wrong && r.Intn(3) == 0 {
			switch r.Intn(4) {
			case 0: // silence
				if _, ok := f.M.(*msg.RqObject); ok {
					x.k.Count("silent_objects", 1)
				}
				continue
			case 1:
				var _, b, _ = msgm.Random(r, 1+r.Intn(len(msgm.Names)-1))
				p.Frame(nodem.Enc(p.Next(), f.Seq, b))
				continue
			case 2:
				p.Send(f.Seq, &msg.Err{Err: "no"})
			case 3:
				time.Sleep(time.Duration(r.Intn(400)) * time.Millisecond)
			}
		}
		switch m := f.M.(type) {
		case *msg.Sub:
			p.Send(f.Seq, &msg.Ok{})
			if e := x.isEvil(m.Feed); e != nil {
				p.Send(0, e.next())
			} else if m.Feed == x.f.PK {
				x.push(p, r)
			}
		case *msg.RqList:
			p.Send(f.Seq, &msg.List{Feeds: []cipher.PubKey{x.f.PK}})
		case *msg.RqPeers:
			p.Send(f.Seq, &msg.Err{Err: "no"})
		case *msg.RqPreview:
			if e := x.isEvil(m.Feed); e != nil && r.Intn(3) > 0 {
				p.Send(f.Seq, e.next())
			} else if len(x.evil) > 0 && r.Intn(2) == 0 {
				p.Send(f.Seq, x.evil[r.Intn(len(x.evil))].next())
			} else {
				p.Send(f.Seq, x.forged(r))
			}
		case *msg.RqObject:
			var v, ok = x.f.Value(m.Key)
			for _, e := range x.evil {
				if !ok {
					v, ok = e.value(m.Key)
				}
			}
			switch {
			case wrong && r.Intn(3) == 0:
				x.k.Count("garbage_objects", 1)
				p.Send(f.Seq, &msg.Object{Value: msgm.Blob(r)})
			case wrong && ok && r.Intn(2) == 0:
				x.k.Count("wrong_objects", 1)
				p.Send(f.Seq, &msg.Object{Value: msgm.Mutate(r, v)})
			case !ok || wrong:
				p.Send(f.Seq, &msg.Err{Err: "no object"})
			default:
				for i := 1 + r.Intn(20)/19; i > 0; i-- {
					p.Send(f.Seq, &msg.Object{Value: v})
				}
			}
		}
	}
}

// a genuine root: captured or already known
func (x *attacker) push(p *nodem.Raw, r *rand.Rand) {
	x.mx.Lock()
	var cs = append([]*nodem.Root{}, x.captured...)
	x.mx.Unlock()
	if len(cs) == 0 || r.Intn(3) == 0 {
		cs = x.f.All()
	}
	if len(cs) == 0 {
		return
	}
	x.k.Count("captured_roots", 1)
	p.Send(0, rootMsg(cs[r.Intn(len(cs))].R))
}

func rootMsg(r *registry.Root) *msg.Root {
	return &msg.Root{Feed: r.Pub, Nonce: r.Nonce, Seq: r.Seq, Value: r.Encode(), Sig: r.Sig}
}

// a forged root
func (x *attacker) forged(r *rand.Rand) (m *msg.Root) {
	x.k.Count("forged_roots", 1)
	var cs = x.f.All()
	var c = *cs[len(cs)-1-r.Intn(len(cs))/2].R
	m = rootMsg(&c)
	switch r.Intn(8) {
	case 0:
		m.Value = msgm.Mutate(r, m.Value)
		if bytes.Equal(m.Value, c.Encode()) {
			m.Sig[0]++
		}
	case 1, 2:
		c.Seq += uint64(1 + r.Intn(5))
		if r.Intn(2) == 0 {
			c.Refs = nil
		}
		m = &msg.Root{Feed: c.Pub, Nonce: c.Nonce, Seq: c.Seq, Value: c.Encode(), Sig: m.Sig}
		if len(x.evil) > 0 && r.Intn(2) == 0 {
			m.Sig = x.evil[0].next().Sig
		} else if r.Intn(3) == 0 {
			m.Sig = cipher.Sig{}
		}
	case 3: // own signature
		var _, sk, _ = cipher.GenerateDeterministicKeyPair([]byte(fmt.Sprint(r.Int63())))
		c.Seq += uint64(1 + r.Intn(5))
		m = &msg.Root{Feed: c.Pub, Nonce: c.Nonce, Seq: c.Seq, Value: c.Encode()}
		m.Sig, _ = cipher.SignHash(cipher.SumSHA256(m.Value), sk)
	case 4, 5: // a root of other feed
		if len(x.evil) > 0 {
			m = x.evil[r.Intn(len(x.evil))].next()
			m.Feed, m.Seq = x.f.PK, c.Seq+1
		} else {
			m.Sig[3]++
		}
	case 6:
		r.Read(m.Sig[:])
		m.Seq += 100
	case 7:
		m.Value = msgm.Blob(r)
		m.Seq += 100
	}
	return
}

func (x *attacker) step() {
	var r, p = x.r, x.p
	switch what := r.Intn(17); what {
	case 0:
		if r.Intn(3) > 0 {
			return
		}
		x.log("garbage")
		x.k.Count("garbage", 1)
		switch r.Intn(4) {
		case 0:
			p.Bytes(x.bytes(3000))
		case 1:
			p.Frame(x.bytes(3000))
		case 2:
			p.Bytes([]byte{255, 255, 255, byte(r.Intn(256))})
		case 3:
			p.Bytes([]byte{100, 0, 0, 0, 1, 2, 3})
			p.Close()
		}
	case 1, 2, 3:
		var t = 1 + r.Intn(len(msgm.Names)-1)
		var _, b, _ = msgm.Random(r, t)
		x.log("unsolicited %s", msgm.Names[t])
		x.k.Count("unsolicited", 1)
		p.Frame(nodem.Enc(r.Uint32(), uint32(r.Intn(10)), b))
	case 4:
		if r.Intn(3) > 0 {
			return
		}
		var t = 1 + r.Intn(len(msgm.Names)-1)
		var _, b, _ = msgm.Random(r, t)
		x.log("mutated %s", msgm.Names[t])
		x.k.Count("mutated", 1)
		p.Frame(msgm.Mutate(r, nodem.Enc(p.Next(), 0, b)))
	case 5:
		x.log("flood of requests")
		x.k.Count("floods", 1)
		var cs = x.f.All()
		for i := 50 + r.Intn(300); i > 0; i-- {
			var h nodem.H
			if r.Intn(2) == 0 && len(cs) > 0 {
				h = cs[r.Intn(len(cs))].R.Hash
			} else if r.Intn(10) > 0 {
				r.Read(h[:])
			}
			p.Send(0, &msg.RqObject{Key: h})
		}
	case 6:
		x.log("flood of subscriptions")
		x.k.Count("floods", 1)
		for i := 20 + r.Intn(100); i > 0; i-- {
			var pk = x.f.PK
			if len(x.evil) > 0 && r.Intn(2) == 0 {
				pk = x.evil[r.Intn(len(x.evil))].pk
			}
			if r.Intn(2) == 0 {
				p.Send(0, &msg.Sub{Feed: pk})
			} else {
				p.Send(0, &msg.Unsub{Feed: pk})
			}
		}
	case 7, 8:
		x.log("subscribes")
		p.Send(0, &msg.Sub{Feed: x.f.PK})
		for i := r.Intn(4); i > 0; i-- {
			x.push(p, r)
		}
	case 9, 10:
		x.log("forged roots")
		for i := 1 + r.Intn(4); i > 0; i-- {
			p.Send(0, x.forged(r))
		}
	case 11, 12, 13:
		if len(x.evil) == 0 {
			return
		}
		var e = x.evil[r.Intn(len(x.evil))]
		x.log("hostile feed, shared %v", e.shared.Load())
		x.k.Count("hostile_feeds", 1)
		p.Send(0, &msg.Sub{Feed: e.pk})
		for i := 1 + r.Intn(4); i > 0; i-- {
			p.Send(0, e.next())
			time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
		}
	case 14:
		x.log("asks")
		p.Send(0, &msg.RqList{})
		p.Send(0, &msg.RqPreview{Feed: x.f.PK})
		p.Send(0, &msg.RqPeers{Feed: x.f.PK})
	case 15:
		if r.Intn(2) == 0 {
			return
		}
		x.log("doesn't read")
		x.k.Count("slow_readers", 1)
		p.Pause(true)
		var cs = x.f.All()
		for i := 200; i > 0 && len(cs) > 0; i-- {
			p.Send(0, &msg.RqObject{Key: cs[r.Intn(len(cs))].R.Hash})
			if c := cs[len(cs)-1]; len(c.R.Refs) > 0 {
				p.Send(0, &msg.RqObject{Key: nodem.H(c.R.Reg)})
			}
		}
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(500)) * time.Millisecond)
			p.Pause(false)
		}
	case 16:
		time.Sleep(time.Duration(r.Intn(200)) * time.Millisecond)
	}
}
