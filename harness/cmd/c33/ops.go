package main

import (
	"fmt"
	"net"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/nodem"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
)

func keys(fs []nodem.PK) string {
	var ss []string
	for _, pk := range fs {
		ss = append(ss, pk.Hex())
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

func lines(ss []string) string {
	ss = append([]string{}, ss...)
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

func estr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// a root the node has, if any
func (t *test) some(pk nodem.PK, nonce, seq uint64) (nodem.PK, uint64, uint64) {
	for _, i := range t.r.Perm(len(t.feeds)) {
		var f = t.feeds[i]
		if rs := f.All(); len(rs) > 0 {
			if x := rs[t.r.Intn(len(rs))]; t.n.Has(x) {
				return f.PK, x.R.Nonce, x.R.Seq
			}
		}
	}
	return pk, nonce, seq
}

// random feed
func (t *test) feed() (pk nodem.PK) {
	if t.r.Intn(12) == 0 {
		return // blank
	}
	if len(t.feeds) > 0 && t.r.Intn(4) > 0 {
		return t.feeds[t.r.Intn(len(t.feeds))].PK
	}
	return t.other[t.r.Intn(len(t.other))]
}

// connections as the API shows them
func (t *test) apiConns() (ss []string) {
	for _, c := range t.n.Connections() {
		ss = append(ss, c.String()+"(✓)")
	}
	return
}

func (t *test) apiFeedConns(pk nodem.PK) (ss []string) {
	for _, c := range t.n.ConnectionsOfFeed(pk) {
		ss = append(ss, c.String())
	}
	return
}

// the answer is the same as the API gives; asynchronous changes are possible
func (t *test) same(what string, f func() (rpc, api string)) {
	var rpc, api string
	if !nodem.Wait(5*time.Second, func() bool {
		rpc, api = f()
		return rpc == api
	}) {
		t.Report("answer", "%s: the answer is %q, the API gives %q\n%s", what, rpc, api, t.Log())
	}
	t.k.Count("answers", 1)
}

// transport, both have the same procedures
type transport interface {
	Connect(address string) error
	Disconnect(address string) error
	Subscribe(address string, pk nodem.PK) error
	Unsubscribe(address string, pk nodem.PK) error
	RemoteFeeds(address string) ([]nodem.PK, error)
	Address() (string, error)
}

func (t *test) transport(udp bool) transport {
	if udp {
		return t.c.UDP()
	}
	return t.c.TCP()
}

// random connection of the transport
func (t *test) conn(udp bool) *node.Conn {
	var ls []*node.Conn
	for _, c := range t.n.Connections() {
		if isTCP(c) != udp {
			ls = append(ls, c)
		}
	}
	if len(ls) == 0 {
		return nil
	}
	return ls[t.r.Intn(len(ls))]
}

func (t *test) peer(c *node.Conn) *nodem.N {
	for _, p := range t.peers {
		if p.ID() == c.PeerID() {
			return p
		}
	}
	return nil
}

func noDB(c *node.Config) *node.Config {
	var x = *c
	x.Logger.Output = nil
	var s = *x.Config
	s.DB = nil
	x.Config = &s
	var v = reflect.ValueOf(&x).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Kind() == reflect.Func {
			v.Field(i).Set(reflect.Zero(v.Field(i).Type()))
		}
	}
	if len(x.TCP.Discovery) == 0 {
		x.TCP.Discovery = nil
	}
	if len(x.UDP.Discovery) == 0 {
		x.UDP.Discovery = nil
	}
	return &x
}

func rootText(r *registry.Root) string {
	if r == nil {
		return "nil"
	}
	var x = *r
	if len(x.Refs) == 0 {
		x.Refs = nil
	}
	if len(x.Descriptor) == 0 {
		x.Descriptor = nil
	}
	return fmt.Sprintf("%+v", x)
}

func statText(s *skyobject.Stat) string {
	var ls = []string{fmt.Sprint(s.CacheObjects, s.AllObjects, s.UsedObjects)}
	for pk, f := range s.Feeds {
		ls = append(ls, "feed "+pk.Hex())
		for nonce, h := range f.Heads {
			ls = append(ls, fmt.Sprint(pk.Hex(), nonce, " ", h.Len, h.First.Hash, h.First.Seq, h.First.Time.UnixNano(), h.Last.Hash, h.Last.Seq, h.Last.Time.UnixNano()))
		}
	}
	return lines(ls)
}

func (t *test) tree(pk nodem.PK, nonce, seq uint64) (s string, err error) {
	var x *registry.Root
	if x, err = t.n.Container().Root(pk, nonce, seq); err != nil {
		return
	}
	var p registry.Pack
	if p, err = t.n.Container().Pack(x, nil); err != nil {
		return
	}
	return x.Tree(p)
}

// a connection without a handshake is listed until it's closed
func (t *test) pending() {
	var addr = t.n.TCPAddr()
	if addr == "" {
		return
	}
	var c, err = net.Dial("tcp", addr)
	if err != nil {
		t.Report("pending", "dial: %v", err)
		return
	}
	defer c.Close()
	var who = c.LocalAddr().String()
	var cs []string
	if !nodem.Wait(5*time.Second, func() bool {
		cs, err = t.c.Node().Connections()
		return err == nil && strings.Contains(lines(cs), who)
	}) {
		t.Report("pending", "a pending connection %s is not listed: %q %v", who, cs, err)
	}
	c.Close()
	t.same("connections after a pending one", func() (string, string) {
		var cs, err = t.c.Node().Connections()
		return lines(cs) + estr(err), lines(t.apiConns())
	})
	t.k.Count("pending", 1)
}

func (t *test) op() {
	var r = t.r
	var n, c = t.n, t.c
	var udp = r.Intn(3) == 0
	var tr = t.transport(udp)
	var effect = func(yes bool, f string, a ...interface{}) {
		t.k.Count("effects", 1)
		t.seen = true
		if !yes {
			t.Report("effect", "%s\n%s", fmt.Sprintf(f, a...), t.Log())
		}
	}
	var errs = func(what string, rpc, api error) {
		if api != nil || rpc != nil {
			t.k.Count("errors_compared", 1)
		}
		if estr(rpc) != estr(api) {
			t.Report("error", "%s: the error is %q, the API gives %q\n%s", what, estr(rpc), estr(api), t.Log())
		}
	}
	switch x := r.Intn(20); x {
	case 0, 1:
		var pk = t.feed()
		var err = c.Node().Share(pk)
		t.Logf("share %s: %v", pk.Hex()[:6], err)
		errs("share", err, n.Share(pk))
		effect(n.IsSharing(pk) == (err == nil), "feed %s is shared (%v), but it isn't", pk.Hex()[:6], err)
	case 2:
		var pk = t.feed()
		var err = c.Node().DontShare(pk)
		t.Logf("don't share %s: %v", pk.Hex()[:6], err)
		effect(!n.IsSharing(pk) || err != nil, "feed %s is not shared, but it is", pk.Hex()[:6])
		errs("don't share", err, n.DontShare(pk))
	case 3:
		t.same("feeds", func() (string, string) {
			var fs, err = c.Node().Feeds()
			return keys(fs) + estr(err), keys(n.Feeds())
		})
		t.k.Count("feeds", 1)
	case 4:
		var pk = t.feed()
		t.same("is sharing", func() (string, string) {
			var yes, err = c.Node().IsSharing(pk)
			return fmt.Sprint(yes, err), fmt.Sprint(n.IsSharing(pk), error(nil))
		})
	case 5:
		t.same("connections", func() (string, string) {
			var cs, err = c.Node().Connections()
			return lines(cs) + estr(err), lines(t.apiConns())
		})
		t.k.Count("connections", 1)
		if r.Intn(4) == 0 {
			t.pending()
		}
	case 6:
		var pk = t.feed()
		t.same("connections of a feed", func() (string, string) {
			var cs, err = c.Node().ConnectionsOfFeed(pk)
			return lines(cs) + estr(err), lines(t.apiFeedConns(pk))
		})
		t.k.Count("connections_of_feed", 1)
	case 7:
		var got, err = c.Node().Config()
		var want = n.Config()
		t.same("config", func() (string, string) {
			if err != nil {
				return estr(err), ""
			}
			var a, b = noDB(got), noDB(want)
			return fmt.Sprintf("%+v %+v", *a, *a.Config), strings.Replace(fmt.Sprintf("%+v %+v", *b, *b.Config), fmt.Sprintf("%p", b.Config), fmt.Sprintf("%p", a.Config), -1)
		})
		t.k.Count("config", 1)
	case 8:
		t.same("stat", func() (string, string) {
			var s, err = c.Node().Stat()
			if err != nil {
				return estr(err), ""
			}
			if s.Stat == nil {
				return "no statistics", "statistics"
			}
			return statText(s.Stat), statText(n.Stat().Stat)
		})
		t.k.Count("stat", 1)
	case 9, 10:
		var pk = t.feed()
		var nonce, seq = uint64(1 + r.Intn(3)), uint64(r.Intn(4))
		if r.Intn(2) == 0 {
			pk, nonce, seq = t.some(pk, nonce, seq)
		}
		var _, rerr = n.Container().Root(pk, nonce, seq)
		var a, aerr = c.Root().Show(pk, nonce, seq)
		var b, berr = n.Container().Root(pk, nonce, seq)
		if estr(rerr) != estr(berr) {
			return // received meanwhile
		}
		errs("show", aerr, berr)
		if berr == nil && aerr == nil && rootText(a) != rootText(b) {
			t.Report("answer", "root %s, want %s", rootText(a), rootText(b))
		}
		var s, serr = c.Root().Tree(pk, nonce, seq)
		var want, werr = t.tree(pk, nonce, seq)
		if _, xerr := n.Container().Root(pk, nonce, seq); estr(xerr) != estr(rerr) {
			return // received meanwhile
		}
		errs("tree", serr, werr)
		if s != want && werr == nil {
			t.Report("answer", "tree %q, want %q", s, want)
		}
		if berr == nil {
			t.k.Count("roots", 1)
		} else {
			t.k.Count("missing_roots", 1)
		}
		if werr == nil {
			t.k.Count("trees", 1)
		}
	case 11:
		var pk = t.feed()
		t.same("last root", func() (string, string) {
			var a, aerr = c.Root().Last(pk)
			var b, berr = nodem.Last(n.Container(), pk)
			if berr != nil {
				return "", estr(berr)[len(estr(aerr)):]
			}
			return rootText(a) + estr(aerr), rootText(b)
		})
	case 12, 13: // connect
		var p = t.peers[r.Intn(len(t.peers))]
		var addr = p.TCPAddr()
		if udp && t.udp {
			addr = p.UDPAddr()
		} else if udp {
			return
		}
		if had := n.Conn(p); had != nil && isTCP(had) == udp {
			return // other transport
		}
		var bad = r.Intn(4) == 0
		if bad {
			addr = []string{"", "127.0.0.1", "127.0.0.1:1", "zzz", "127.0.0.1:99999", "1.2.3.4.5:60", "[::", strings.Repeat("a", 1000)}[r.Intn(8)]
			if udp && addr == "127.0.0.1:1" {
				return // nobody answers
			}
		}
		if had := n.Conn(p); had != nil && had.IsIncoming() && !bad {
			return // same peer
		}
		var err = tr.Connect(addr)
		t.Logf("connect to %s: %v", addr, err)
		if bad {
			var _, api = n.TCP().Connect(addr)
			if udp {
				_, api = n.UDP().Connect(addr)
			}
			t.k.Count("connect_failed", 1)
			errs("connect "+addr, err, api)
			return
		}
		effect(err == nil && n.Conn(p) != nil && isTCP(n.Conn(p)) != udp, "connected to %s: %v", addr, err)
		effect(nodem.Wait(10*time.Second, func() bool { return p.Conn(n) != nil }), "the peer has no connection")
		if udp {
			t.k.Count("udp_connected", 1)
		}
	case 14: // disconnect
		var cn = t.conn(udp)
		if cn == nil {
			if r.Intn(2) == 0 {
				errs("disconnect", tr.Disconnect("127.0.0.1:7"), nil)
			}
			return
		}
		var err = tr.Disconnect(cn.Address())
		t.Logf("disconnect %s: %v", cn, err)
		var left bool
		for _, x := range n.Connections() {
			left = left || x == cn
		}
		effect(err == nil && !left, "disconnected: %v, but it's listed", err)
		t.k.Count("disconnected", 1)
		if p := t.peer(cn); p != nil {
			if udp { // it isn't told
				if x := p.Conn(n); x != nil {
					x.Close()
				}
			} else {
				effect(nodem.Wait(10*time.Second, func() bool { return p.Conn(n) == nil }), "the peer has a closed connection")
			}
		}
	case 15, 16: // subscribe
		var cn = t.conn(udp)
		var pk = t.feed()
		if fs := t.feeds; cn != nil && len(fs) > 0 && r.Intn(2) == 0 {
			var f = fs[r.Intn(len(fs))]
			var p = t.peer(cn)
			if pk = f.PK; p != nil && !p.IsSharing(pk) && t.Nodes[f.Owner] == p {
				p.Share(pk)
			}
		}
		if cn == nil || r.Intn(8) == 0 {
			var err = tr.Subscribe("127.0.0.1:7", pk)
			if err == nil {
				t.Report("error", "subscribed to a feed of a connection that doesn't exist")
			}
			return
		}
		var before = keys(cn.Feeds())
		var err = tr.Subscribe(cn.Address(), pk)
		t.Logf("subscribe %s to %s: %v", cn, pk.Hex()[:6], err)
		var has bool
		for _, x := range cn.Feeds() {
			has = has || x == pk
		}
		if err == nil {
			effect(has, "subscribed, but it is not")
			effect(n.IsSharing(pk), "subscribed, but the feed is not shared")
			t.k.Count("subscribed", 1)
		} else {
			t.k.Count("not_subscribed", 1)
			effect(has == strings.Contains(before, pk.Hex()), "error, but the list changed")
			errs("subscribe", err, cn.Subscribe(pk))
		}
	case 17:
		var cn = t.conn(udp)
		var pk = t.feed()
		if fs := t.feeds; cn != nil && len(fs) > 0 && r.Intn(2) == 0 {
			var f = fs[r.Intn(len(fs))]
			var p = t.peer(cn)
			if pk = f.PK; p != nil && !p.IsSharing(pk) && t.Nodes[f.Owner] == p {
				p.Share(pk)
			}
		}
		if cn == nil || r.Intn(8) == 0 {
			if tr.Unsubscribe("127.0.0.1:7", pk) == nil {
				t.Report("error", "unsubscribed from a feed of a connection that doesn't exist")
			}
			return
		}
		var err = tr.Unsubscribe(cn.Address(), pk)
		t.Logf("unsubscribe %s from %s: %v", cn, pk.Hex()[:6], err)
		effect(err == nil && nodem.Wait(5*time.Second, func() bool { return !strings.Contains(keys(cn.Feeds()), pk.Hex()) || pk == nodem.PK{} }), "unsubscribed, but it is: %v", err)
	case 18:
		var cn = t.conn(udp)
		if cn == nil || r.Intn(8) == 0 {
			if _, err := tr.RemoteFeeds("127.0.0.1:7"); err == nil {
				t.Report("error", "feeds of a connection that doesn't exist")
			}
			return
		}
		var a, aerr = tr.RemoteFeeds(cn.Address())
		var b, berr = cn.RemoteFeeds()
		errs("remote feeds", aerr, berr)
		if keys(a) != keys(b) {
			t.Report("answer", "remote feeds %s, want %s", keys(a), keys(b))
		}
		t.k.Count("remote_feeds", 1)
	case 19:
		if r.Intn(2) == 0 {
			var want string
			if !udp {
				want = n.TCP().Address() // creates the transport
			} else if t.udp {
				want = n.UDP().Address()
			}
			var a, err = tr.Address()
			if a != want || (err != nil && !udp) {
				t.Report("answer", "address %q %v, want %q", a, err, want)
			}
		} else if len(t.feeds) > 0 { // something new
			var f = t.feeds[r.Intn(len(t.feeds))]
			for _, o := range t.Nodes {
				if o.IsSharing(f.PK) && o == t.Nodes[f.Owner] {
					t.Publish(f, uint64(1+r.Intn(2)))
				}
			}
		}
	}
}

// several clients at once
func (t *test) concurrent() {
	var wg sync.WaitGroup
	var pks = append([]nodem.PK{}, t.other...)
	for _, f := range t.feeds {
		pks = append(pks, f.PK)
	}
	var addr = t.peers[0].TCPAddr()
	var had = t.n.Conn(t.peers[0]) != nil
	for g := 2 + t.r.Intn(4); g > 0; g-- {
		var seed = t.r.Int()
		wg.Add(1)
		go func() {
			defer wg.Done()
			var c, err = node.NewRPCClient(t.rpc)
			if err != nil {
				t.Report("dial", "%v", err)
				return
			}
			defer c.Close()
			for i := 0; i < 25; i++ {
				var x = seed >> uint(i)
				var pk = pks[x&0xff%len(pks)]
				switch x & 15 {
				case 0, 1:
					err = c.Node().Share(pk)
				case 2:
					err = c.Node().DontShare(pk)
				case 3:
					_, err = c.Node().Feeds()
				case 4:
					_, err = c.Node().Connections()
				case 5:
					_, err = c.Node().ConnectionsOfFeed(pk)
				case 6:
					_, err = c.Node().Stat()
				case 7:
					_, err = c.Node().Config()
				case 8, 9:
					if !had {
						c.TCP().Connect(addr)
					}
				case 10:
					c.TCP().Disconnect(addr)
				case 11:
					c.TCP().Subscribe(addr, pk)
				case 12:
					c.TCP().Unsubscribe(addr, pk)
				case 13:
					c.Root().Last(pk)
				case 14:
					c.Root().Tree(pk, 1, 0)
				case 15:
					c.TCP().RemoteFeeds(addr)
				}
				t.k.Count("concurrent_calls", 1)
				if err != nil {
					t.Report("concurrent", "call %d: %v", x&15, err)
					return
				}
			}
		}()
	}
	wg.Wait()
	t.Logf("concurrent")
}

func isTCP(c *node.Conn) bool { return strings.Contains(c.String(), "tcp://") }
