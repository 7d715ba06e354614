package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"net"
	"net/rpc"
	"reflect"
	"strings"
	"time"

	"verif/msgm"
	"verif/nodem"

	"github.com/skycoin/cxo/node"
)

var methods = []string{"node.Share", "node.DontShare", "node.Feeds", "node.IsSharing", "node.Connections", "node.ConnectionsOfFeed", "node.Config", "node.Stat", "tcp.Connect", "tcp.Disconnect", "tcp.Subscribe",
	"tcp.Unsubscribe", "tcp.RemoteFeeds", "tcp.Address", "udp.Disconnect", "udp.Subscribe", "udp.Unsubscribe", "udp.RemoteFeeds", "udp.Address", "root.Show", "root.Tree", "root.Last",
	"node.Close", "node", "", ".", "node.", ".Share", "tcp.n", "root.Drop", "node.share", strings.Repeat("x", 5000) + ".y"}

// a client that sends something wrong; the node ends neither itself nor
// service of others
func (t *test) hostile() {
	var r = t.r
	var c, err = net.Dial("tcp", t.rpc)
	if err != nil {
		t.Report("dial", "%v", err)
		return
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	t.k.Count("hostile", 1)
	// requests recorded
	var buf bytes.Buffer
	var enc = gob.NewEncoder(&buf)
	var bodies = []interface{}{struct{}{}, nodem.PK{1}, nodem.PK{}, "127.0.0.1:7", "", node.ConnFeed{Address: "127.0.0.1:7"}, node.ConnFeed{}, node.RootSelector{Nonce: 1}, node.RootSelector{}, 1, "x", []string{"a"},
		map[string]int{"a": 1}, []byte("bytes"), 1.5, struct{ Address int }{1}, struct{ Address, Feed string }{"a", "b"}, struct{ Nonce int }{-1}, [33]int{1}, true}
	if len(t.feeds) > 0 {
		var f = t.feeds[r.Intn(len(t.feeds))]
		bodies = append(bodies, node.RootSelector{Feed: f.PK, Nonce: 1, Seq: uint64(r.Intn(3))}, node.RootSelector{Feed: f.PK, Nonce: ^uint64(0), Seq: ^uint64(0)})
	}
	var frames = 1 + r.Intn(6)
	for i := 0; i < frames; i++ {
		enc.Encode(rpc.Request{ServiceMethod: methods[r.Intn(len(methods))], Seq: uint64(r.Intn(3))})
		var m = bodies[r.Intn(len(bodies))]
		if _, ok := m.(struct{}); ok {
			enc.Encode(struct{ X int }{})
		} else {
			enc.Encode(m)
		}
	}
	var b = buf.Bytes()
	switch x := r.Intn(6); x {
	case 0: // as they are
	case 1:
		b = b[:r.Intn(len(b)+1)]
	case 2, 3:
		b = msgm.Mutate(r, b)
	case 4:
		b = msgm.Blob(r)
	case 5: // a huge frame
		var h [9]byte
		h[0] = 0xf8
		binary.BigEndian.PutUint64(h[1:], uint64(r.Int63n(1<<31)))
		b = append(append([]byte{}, h[:1+8]...), b...)
	}
	t.Logf("hostile %d bytes", len(b))
	c.Write(b)
	switch r.Intn(3) {
	case 0:
		return // disappears
	case 1:
		c.(*net.TCPConn).CloseWrite()
	}
	c.SetReadDeadline(time.Now().Add(time.Duration(20+r.Intn(50)) * time.Millisecond))
	var dec = gob.NewDecoder(c)
	for {
		var rs rpc.Response
		if dec.Decode(&rs) != nil {
			return
		}
		t.k.Count("hostile_answers", 1)
		if rs.Error != "" {
			t.k.Count("hostile_errors", 1)
		}
		if dec.DecodeValue(reflect.Value{}) != nil {
			return
		}
	}
}
