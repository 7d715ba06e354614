// Package nodem runs real nodes that talk over loopback and watches what
// they report.
package nodem

import (
	"errors"
	"fmt"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/cxstore"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

// H is hash
type H = cipher.SHA256

// PK is public key
type PK = cipher.PubKey

// ErrReject is returned by callbacks that refuse
var ErrReject = errors.New("refused by the callback")

// Report of a violation
type Report func(key, f string, a ...interface{})

// Opt of a node
type Opt struct {
	UDP     bool
	Timeout time.Duration // of responses
	Index   string        // path of the index, blank for a temporary one
	Dir     string        // use real databases in the folder, "memory" for in-memory ones
	Store   *cxstore.Store
	Conf    func(*node.Config)
	Loose   bool // heads can be dropped without a report

	OnConnect   func(c *node.Conn) error
	OnReceived  func(c *node.Conn, r *registry.Root) error
	OnFilled    func(n *N, r *registry.Root)
	OnBreaks    func(n *N, r *registry.Root, err error)
	OnSubscribe func(c *node.Conn, pk PK) error
}

// N is a watched node
type N struct {
	*node.Node
	Name string
	St   *cxstore.Store
	O    Opt

	rep Report

	mx    sync.Mutex
	log   []string
	conns map[*node.Conn]int // 1 - opened, 2 - closed
	heads map[string]*head
	loose map[PK]bool // the feed was dropped
	subs  map[string]int

	Received, Filled, Broken, Opened, Closed, Replaced, Rejected int32

	ended int32 // Close of the node has returned
}

// End is called after the node is closed
func (n *N) End() { atomic.StoreInt32(&n.ended, 1) }

func (n *N) late(what string) {
	if atomic.LoadInt32(&n.ended) != 0 {
		n.rep("after-close", "%s: callback %s is called after Close has returned", n.Name, what)
	}
}

// what the callbacks of a head must look like
type head struct {
	pk        PK
	cur, pend *rootID
	full      map[uint64]H
	last      uint64
	any       bool
	accepted  map[H]bool
}

type rootID struct {
	seq  uint64
	hash H
}

// fatal shows why the node ends the process
type fatal struct{}

func (fatal) Write(p []byte) (int, error) {
	var pcs [12]uintptr
	var fs = runtime.CallersFrames(pcs[:runtime.Callers(2, pcs[:])])
	for {
		var f, more = fs.Next()
		if strings.Contains(f.Function, ").Fatal") {
			var buf = make([]byte, 16384)
			os.Stderr.WriteString("FATAL: " + string(p) + string(buf[:runtime.Stack(buf, false)]))
			break
		}
		if !more {
			break
		}
	}
	return len(p), nil
}

// NewConfig for tests
func NewConfig() (c *node.Config) {
	c = node.NewConfig()
	c.Logger.Output = fatal{}
	c.TCP.Listen = "127.0.0.1:0"
	c.UDP.Listen = ""
	c.RPC = ""
	c.TCP.Discovery, c.UDP.Discovery = nil, nil
	return
}

// New node
func New(name string, o Opt, rep Report) (n *N, err error) {
	n = &N{Name: name, O: o, rep: rep}
	n.conns = make(map[*node.Conn]int)
	n.heads = make(map[string]*head)
	n.loose = make(map[PK]bool)
	if o.Loose {
		n.loose[PK{}] = true
	}
	n.subs = make(map[string]int)
	if n.St = o.Store; n.St == nil {
		n.St = cxstore.New()
	}
	var c = NewConfig()
	if o.UDP {
		c.UDP.Listen = "127.0.0.1:0"
	}
	if o.Timeout == 0 {
		o.Timeout = 5 * time.Second
	}
	c.TCP.ResponseTimeout, c.UDP.ResponseTimeout = o.Timeout, o.Timeout
	var idx data.IdxDB
	if o.Dir == "memory" {
		c.Config.InMemoryDB = true
	} else if o.Dir != "" {
		c.Config.InMemoryDB, c.Config.DataDir = false, o.Dir
	} else if o.Index == "" {
		idx = idxdb.NewMemeoryDB()
	} else if idx, err = idxdb.NewDriveIdxDB(o.Index); err != nil {
		return
	}
	if idx != nil {
		c.Config.DB = data.NewDB(n.St, idx)
	}
	c.OnConnect = n.onConnect
	c.OnDisconnect = n.onDisconnect
	c.OnRootReceived = n.onReceived
	c.OnRootFilled = n.onFilled
	c.OnFillingBreaks = n.onBreaks
	c.OnSubscribeRemote = n.onSubscribe
	c.OnUnsubscribeRemote = n.onUnsubscribe
	if o.Conf != nil {
		o.Conf(c)
	}
	if n.Node, err = node.NewNode(c); err != nil {
		return nil, err
	}
	return
}

func (n *N) logf(f string, a ...interface{}) {
	n.log = append(n.log, fmt.Sprintf("%s %s", time.Now().Format("05.000"), fmt.Sprintf(f, a...)))
	if len(n.log) > 300 {
		n.log = n.log[len(n.log)-200:]
	}
}

// Log of the callbacks
func (n *N) Log() (s string) {
	n.mx.Lock()
	defer n.mx.Unlock()
	for _, l := range n.log {
		s += n.Name + " " + l + "\n"
	}
	return
}

// TCPAddr is actual address
func (n *N) TCPAddr() string { return n.TCP().ListenAddr() }

// UDPAddr is actual address
func (n *N) UDPAddr() string { return n.UDP().ListenAddr() }

// Connect to other node
func (n *N) Connect(x *N, udp bool) (*node.Conn, error) {
	if udp {
		return n.UDP().Connect(x.UDPAddr())
	}
	return n.TCP().Connect(x.TCPAddr())
}

// Conn with other node
func (n *N) Conn(x *N) *node.Conn {
	for _, c := range n.Connections() {
		if c.PeerID() == x.ID() {
			return c
		}
	}
	return nil
}

// Loose is called before the feed is dropped: fillings are stopped without
// a report then
func (n *N) Loose(pk PK) {
	n.mx.Lock()
	defer n.mx.Unlock()
	n.loose[pk] = true
}

// LooseAll is Loose for every feed
func (n *N) LooseAll() { n.Loose(PK{}) }

func (n *N) isLoose(pk PK) bool { return n.loose[pk] || n.loose[PK{}] }

func (n *N) onConnect(c *node.Conn) (err error) {
	n.late("OnConnect")
	n.mx.Lock()
	n.logf("opened %s", c)
	if n.conns[c] != 0 {
		n.rep("opened-twice", "%s: connection %s is reported as opened twice", n.Name, c)
	}
	n.conns[c] = 1
	n.mx.Unlock()
	atomic.AddInt32(&n.Opened, 1)
	if f := n.O.OnConnect; f != nil {
		err = f(c)
	}
	return
}

func (n *N) onDisconnect(c *node.Conn, reason error) {
	n.late("OnDisconnect")
	n.mx.Lock()
	defer n.mx.Unlock()
	n.logf("closed %s: %v", c, reason)
	switch n.conns[c] {
	case 0:
		n.rep("closed-not-opened", "%s: connection %s is reported as closed but was not reported as opened", n.Name, c)
	case 2:
		n.rep("closed-twice", "%s: connection %s is reported as closed twice", n.Name, c)
	}
	n.conns[c] = 2
	atomic.AddInt32(&n.Closed, 1)
}

func key(r *registry.Root) string { return fmt.Sprint(r.Pub.Hex(), r.Nonce) }

func (n *N) head(r *registry.Root) (h *head) {
	if h = n.heads[key(r)]; h == nil {
		h = &head{pk: r.Pub, full: make(map[uint64]H), accepted: make(map[H]bool)}
		n.heads[key(r)] = h
	}
	return
}

// short name of a root
func short(r *registry.Root) string {
	return fmt.Sprintf("%s/%d/%d (%s)", r.Pub.Hex()[:6], r.Nonce, r.Seq, r.Hash.Hex()[:6])
}

func (n *N) onReceived(c *node.Conn, r *registry.Root) (err error) {
	n.late("OnRootReceived")
	if f := n.O.OnReceived; f != nil {
		err = f(c, r)
	}
	n.mx.Lock()
	defer n.mx.Unlock()
	atomic.AddInt32(&n.Received, 1)
	n.logf("received %s from %s: %v", short(r), c, err)
	var h = n.head(r)
	if h.any && r.Seq <= h.last {
		n.rep("received-old", "%s: root %s is reported as received after a root with seq %d of the head was reported as filled", n.Name, short(r), h.last)
	}
	if n.conns[c] == 0 {
		// the connection is reported from its own goroutine
		n.subs["early"]++
	}
	if err != nil {
		atomic.AddInt32(&n.Rejected, 1)
		return
	}
	h.accepted[r.Hash] = true
	var id = &rootID{r.Seq, r.Hash}
	switch {
	case n.isLoose(r.Pub):
		h.cur, h.pend = nil, nil
	case h.cur == nil:
		h.cur = id
	default:
		if r.Seq <= h.cur.seq {
			n.rep("received-order", "%s: root %s is reported as received while seq %d is filled", n.Name, short(r), h.cur.seq)
		}
		if h.pend != nil {
			atomic.AddInt32(&n.Replaced, 1)
			if r.Seq <= h.pend.seq {
				n.rep("received-order", "%s: root %s is reported as received while seq %d waits to be filled", n.Name, short(r), h.pend.seq)
			}
		}
		h.pend = id
	}
	return
}

// cur is done
func (n *N) outcome(r *registry.Root, what string) (h *head) {
	h = n.head(r)
	if !h.accepted[r.Hash] {
		n.rep("outcome-unknown", "%s: root %s is reported as %s but was not accepted", n.Name, short(r), what)
	}
	if n.isLoose(r.Pub) {
		h.cur, h.pend = nil, nil
		return
	}
	if h.cur == nil {
		n.rep("outcome-twice", "%s: root %s is reported as %s, but no root of the head is to be filled", n.Name, short(r), what)
		return
	}
	if h.cur.hash != r.Hash {
		n.rep("outcome-order", "%s: root %s is reported as %s but the root to be filled has seq %d", n.Name, short(r), what, h.cur.seq)
	}
	h.cur, h.pend = h.pend, nil
	return
}

func (n *N) onFilled(_ *node.Node, r *registry.Root) {
	n.late("OnRootFilled")
	func() {
		n.mx.Lock()
		defer n.mx.Unlock()
		n.logf("filled %s", short(r))
		var h = n.outcome(r, "filled")
		if _, ok := h.full[r.Seq]; ok {
			n.rep("filled-twice", "%s: root %s is reported as filled twice", n.Name, short(r))
		}
		h.full[r.Seq] = r.Hash
		if h.any && r.Seq <= h.last {
			n.rep("filled-order", "%s: root %s is reported as filled after seq %d", n.Name, short(r), h.last)
		}
		h.any, h.last = true, r.Seq
	}()
	if f := n.O.OnFilled; f != nil {
		f(n, r)
	}
	atomic.AddInt32(&n.Filled, 1)
}

func (n *N) onBreaks(_ *node.Node, r *registry.Root, err error) {
	n.late("OnFillingBreaks")
	func() {
		n.mx.Lock()
		defer n.mx.Unlock()
		n.logf("broken %s: %v", short(r), err)
		if err == nil {
			n.rep("broken-no-reason", "%s: filling of %s is reported as broken without a reason", n.Name, short(r))
		}
		var h = n.outcome(r, "broken")
		if err == node.ErrMaxHeadsLimit {
			h.pend, h.cur = nil, nil
		}
		if h.full[r.Seq] == r.Hash {
			n.rep("broken-filled", "%s: root %s is reported as broken after it was reported as filled", n.Name, short(r))
		}
	}()
	if f := n.O.OnBreaks; f != nil {
		f(n, r, err)
	}
	atomic.AddInt32(&n.Broken, 1)
}

func (n *N) onSubscribe(c *node.Conn, pk PK) (err error) {
	n.late("OnSubscribeRemote")
	if f := n.O.OnSubscribe; f != nil {
		err = f(c, pk)
	}
	n.mx.Lock()
	defer n.mx.Unlock()
	n.logf("peer %s subscribes to %s: %v", c, pk.Hex()[:6], err)
	return
}

func (n *N) onUnsubscribe(c *node.Conn, pk PK) {
	n.late("OnUnsubscribeRemote")
	n.mx.Lock()
	defer n.mx.Unlock()
	n.subs["unsub"]++
	n.logf("peer %s unsubscribes from %s", c, pk.Hex()[:6])
}

// Unsubs is number of remote unsubscriptions
func (n *N) Unsubs() int {
	n.mx.Lock()
	defer n.mx.Unlock()
	return n.subs["unsub"]
}

// Busy heads
func (n *N) Busy() (s string) {
	n.mx.Lock()
	defer n.mx.Unlock()
	for k, h := range n.heads {
		if h.cur != nil && !n.isLoose(h.pk) {
			s += fmt.Sprintf("%s %s: seq %d has no outcome\n", n.Name, k[:6], h.cur.seq)
		}
	}
	return
}

// Unclosed connections after the node is closed
func (n *N) Unclosed() {
	n.mx.Lock()
	defer n.mx.Unlock()
	for c, s := range n.conns {
		if s == 1 {
			n.rep("not-closed", "%s: connection %s is not reported as closed though the node is closed", n.Name, c)
		}
	}
}

// Wait until the f is true
func Wait(d time.Duration, f func() bool) bool {
	var end = time.Now().Add(d)
	for p := time.Millisecond; ; p *= 2 {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return f()
		}
		if p > 50*time.Millisecond {
			p = 50 * time.Millisecond
		}
		time.Sleep(p)
	}
}

// Last root of the active head
func Last(c *skyobject.Container, pk PK) (*registry.Root, error) {
	return c.LastRoot(pk, c.ActiveHead(pk))
}

var lastPort = int32(os.Getpid() * 37 % 21000)

// FreePort returns an unused address, out of the range the system chooses from
//
// The address is not listened here: a process that is starting just now
// (fork, then exec) would keep the listener for a while
func FreePort() string {
	for {
		var p = atomic.AddInt32(&lastPort, 1)
		p = 10000 + p%21000
		var a = fmt.Sprint("127.0.0.1:", p)
		var c, err = net.DialTimeout("tcp", a, time.Second)
		if err != nil {
			return a
		}
		c.Close()
	}
}
