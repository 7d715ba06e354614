// C29: lists of feeds, connections and subscriptions
package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/kit"
	"verif/nodem"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/skycoin/src/cipher"
)

func main() {
	kit.Main("C29", kit.Opts{
		Rule: "histories of two to four nodes that connect (TCP, UDP), close, share, subscribe, unsubscribe and stop sharing; subscriptions are accepted, refused or make the remote node share the feed; " +
			"after every operation every list of every node has to be equal to the model; and the same operations made by several goroutines at the same time, after which the lists of all nodes have to agree with " +
			"each other; and raw peers that answer late or never; non-trivial with a removed subscription; distinct by the history",
		Need: []string{"operations", "comparisons", "connected", "closed", "closed_by_network", "subscribed", "subscribed_again", "not_shared", "refused", "shared_by_callback", "unsubscribed", "stopped_sharing",
			"remote_feeds", "remote_feeds_not_public", "concurrent", "concurrent_subscriptions_left", "blank", "udp", "unsubscribe_callbacks", "slow_peers", "late_answers", "no_answers", "raw_unsubs"},
		MinCases: 60,
		Watchdog: 14 * time.Minute,
	}, run)
}

func run(k *kit.K) {
	var next int32 = -1
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := int(atomic.AddInt32(&next, 1)); i < k.N(1500, 20000) && k.Bad() < 6; i = int(atomic.AddInt32(&next, 1)) {
				k.Within("hang", fmt.Sprint("history ", i), 3*time.Minute, func() {
					if i%5 == 4 {
						var name = fmt.Sprint("history ", i)
						(&test{World: nodem.NewWorld(k, k.Rng("p", i), name), k: k, r: k.Rng("p", i)}).slow()
					} else if i%3 != 0 {
						concurrent(k, k.Rng("c", i), i)
					} else {
						sequential(k, k.Rng("s", i), i)
					}
				})
			}
		}()
	}
	wg.Wait()
}

// policies of OnSubscribeRemote
const (
	accept = iota
	refuse
	share
)

type pair struct{ a, b int }

func mk(a, b int) pair {
	if a > b {
		a, b = b, a
	}
	return pair{a, b}
}

type link struct {
	from, to int // who connected
	udp      bool
	subs     map[int]bool
}

type test struct {
	*nodem.World
	k      *kit.K
	r      *rand.Rand
	feeds  []nodem.PK
	policy int32
	public []bool

	shares []map[int]bool
	links  map[pair]*link
	unsubs []int // callbacks expected
	remove bool
	multi  bool
}

func newTest(k *kit.K, r *rand.Rand, name string) (t *test) {
	t = &test{World: nodem.NewWorld(k, r, name), k: k, r: r, links: make(map[pair]*link)}
	for i := 2 + r.Intn(3); i > 0; i-- {
		var pub = r.Intn(2) == 0
		var at = len(t.Nodes)
		t.public = append(t.public, pub)
		t.shares = append(t.shares, make(map[int]bool))
		t.unsubs = append(t.unsubs, 0)
		t.Node(nodem.Opt{UDP: true, Timeout: 10 * time.Second,
			Conf: func(c *node.Config) { c.Public = pub },
			OnSubscribe: func(c *node.Conn, pk nodem.PK) error {
				var p = atomic.LoadInt32(&t.policy)
				if t.multi {
					p = int32(pk[3]+byte(at)) % 4 // 3 is accept
				}
				switch p {
				case refuse:
					return nodem.ErrReject
				case share:
					return c.Node().Share(pk)
				}
				return nil
			}})
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		var pk, _, _ = cipher.GenerateDeterministicKeyPair([]byte(fmt.Sprint(name, i)))
		t.feeds = append(t.feeds, pk)
	}
	return
}

func (t *test) feedName(pk nodem.PK) string {
	for i, x := range t.feeds {
		if x == pk {
			return fmt.Sprint(i)
		}
	}
	return pk.Hex()[:6]
}

func (t *test) nodeName(id nodem.PK) string {
	for i, n := range t.Nodes {
		if n.ID() == id {
			return fmt.Sprint(i)
		}
	}
	return id.Hex()[:6]
}

func list(ss []string) string { sort.Strings(ss); return strings.Join(ss, ",") }

func (t *test) peers(cs []*node.Conn) string {
	var ss []string
	for _, c := range cs {
		ss = append(ss, t.nodeName(c.PeerID()))
	}
	return list(ss)
}

func (t *test) fs(pks []nodem.PK) string {
	var ss []string
	for _, pk := range pks {
		ss = append(ss, t.feedName(pk))
	}
	return list(ss)
}

// what the node shows
func (t *test) shown(i int) string {
	var n = t.Nodes[i]
	var s = "feeds " + t.fs(n.Feeds()) + "; conns " + t.peers(n.Connections()) + "; idle " + t.peers(n.ConnectionsOfFeed(nodem.PK{}))
	var fs []string
	for f, pk := range t.feeds {
		if n.IsSharing(pk) {
			fs = append(fs, fmt.Sprint(f))
		}
		s += fmt.Sprintf("; of %d: %s", f, t.peers(n.ConnectionsOfFeed(pk)))
	}
	s += "; sharing " + list(fs)
	var cs []string
	for _, c := range n.Connections() {
		var dir = "out"
		if c.IsIncoming() {
			dir = "in"
		}
		cs = append(cs, fmt.Sprintf("%s %s tcp %v: %s", t.nodeName(c.PeerID()), dir, c.IsTCP(), t.fs(c.Feeds())))
	}
	return s + "; " + list(cs)
}

func (t *test) want(i int) string {
	var all, idle, cs, fs []string
	var of = make([][]string, len(t.feeds))
	for f := range t.shares[i] {
		fs = append(fs, fmt.Sprint(f))
	}
	for p, l := range t.links {
		if p.a != i && p.b != i {
			continue
		}
		var x = fmt.Sprint(p.a + p.b - i)
		all = append(all, x)
		if len(l.subs) == 0 {
			idle = append(idle, x)
		}
		var ls []string
		for f := range l.subs {
			of[f] = append(of[f], x)
			ls = append(ls, fmt.Sprint(f))
		}
		var dir = "out"
		if l.to == i {
			dir = "in"
		}
		cs = append(cs, fmt.Sprintf("%s %s tcp %v: %s", x, dir, !l.udp, list(ls)))
	}
	var s = "feeds " + list(fs) + "; conns " + list(all) + "; idle " + list(idle)
	for f := range t.feeds {
		s += fmt.Sprintf("; of %d: %s", f, list(of[f]))
	}
	return s + "; sharing " + list(fs) + "; " + list(cs)
}

func (t *test) compare(key string) bool {
	for i := range t.Nodes {
		var want, got = t.want(i), ""
		if !nodem.Wait(10*time.Second, func() bool { got = t.shown(i); return got == want }) {
			t.Report(key, "n%d shows\n%s, want\n%s\n%s", i, got, want, t.CB())
			return false
		}
		if n := t.Nodes[i]; !nodem.Wait(10*time.Second, func() bool { return n.Unsubs() == t.unsubs[i] }) {
			t.Report("unsubscribe-callback", "n%d: OnUnsubscribeRemote was called %d times, want %d\n%s", i, n.Unsubs(), t.unsubs[i], t.CB())
			return false
		}
		t.k.Count("comparisons", 1)
	}
	return true
}

func (t *test) drop(p pair) {
	delete(t.links, p)
	t.remove = true
}

func sequential(k *kit.K, r *rand.Rand, i int) {
	var t = newTest(k, r, fmt.Sprint("history ", i))
	var ok = true
	for j := 8 + r.Intn(25); j > 0 && ok; j-- {
		ok = t.op() && t.compare("lists")
		k.Count("operations", 1)
	}
	for i := range t.unsubs {
		k.Count("unsubscribe_callbacks", t.unsubs[i])
	}
	t.Close()
	var l []string
	for _, x := range strings.Split(t.Log(), "\n") {
		if len(x) > 7 {
			l = append(l, x[7:])
		}
	}
	k.Case(ok && t.remove, strings.Join(l, "\n"))
}

func (t *test) op() bool {
	var r = t.r
	var a, b = r.Intn(len(t.Nodes)), r.Intn(len(t.Nodes) - 1)
	if b >= a {
		b++
	}
	var f = r.Intn(len(t.feeds))
	var pk = t.feeds[f]
	var na, nb = t.Nodes[a], t.Nodes[b]
	var l = t.links[mk(a, b)]
	var name = fmt.Sprintf("n%d-n%d, feed %d", a, b, f)
	var fail = func(s string, x ...interface{}) bool {
		t.Report("reply", "%s: %s\n%s", name, fmt.Sprintf(s, x...), t.CB())
		return false
	}
	switch x := r.Intn(20); {
	case x < 5:
		var udp = r.Intn(5) == 0
		t.Logf("%s: connect, udp: %v", name, udp)
		var c, err = na.Connect(nb, udp)
		if l != nil {
			if err == nil && c.PeerID() != nb.ID() {
				return fail("wrong peer")
			}
			return true // the same one or an error
		}
		if err != nil {
			return fail("%v", err)
		}
		t.links[mk(a, b)] = &link{a, b, udp, make(map[int]bool)}
		t.k.Count("connected", 1)
		if udp {
			t.k.Count("udp", 1)
		}
	case x < 8:
		t.Logf("%s: n%d shares", name, a)
		if err := na.Share(pk); err != nil {
			return fail("%v", err)
		}
		t.shares[a][f] = true
	case x < 9:
		t.Logf("%s: n%d stops sharing", name, a)
		na.DontShare(pk)
		delete(t.shares[a], f)
		for p, l := range t.links {
			if (p.a == a || p.b == a) && l.subs[f] {
				delete(l.subs, f)
				t.unsubs[p.a+p.b-a]++
				t.remove = true
				t.k.Count("stopped_sharing", 1)
			}
		}
	case x < 15:
		if l == nil {
			return true
		}
		var c = na.Conn(nb)
		if c == nil {
			return fail("no connection")
		}
		var p = r.Intn(4)
		if p == 3 {
			p = accept
		}
		atomic.StoreInt32(&t.policy, int32(p))
		t.Logf("%s: subscribe, policy %d", name, p)
		var err = c.Subscribe(pk)
		t.shares[a][f] = true
		if !l.subs[f] && p == share {
			t.shares[b][f] = true
			t.k.Count("shared_by_callback", 1)
		}
		switch {
		case l.subs[f]:
			t.k.Count("subscribed_again", 1)
			if err != nil {
				return fail("Subscribe of subscribed: %v", err)
			}
		case p == refuse:
			t.k.Count("refused", 1)
			if err == nil || !strings.Contains(err.Error(), nodem.ErrReject.Error()) {
				return fail("Subscribe refused by the peer returns %v", err)
			}
		case !t.shares[b][f]:
			t.k.Count("not_shared", 1)
			if err == nil {
				return fail("Subscribe returns no error though the peer does not share the feed")
			}
		default:
			if err != nil {
				return fail("Subscribe returns %v", err)
			}
			l.subs[f] = true
			t.k.Count("subscribed", 1)
			// it's listed already
			if !strings.Contains(","+t.fs(c.Feeds())+",", fmt.Sprintf(",%d,", f)) {
				return fail("the feed isn't listed after Subscribe")
			}
		}
	case x < 17:
		if l == nil {
			return true
		}
		var c = na.Conn(nb)
		if c == nil {
			return fail("no connection")
		}
		t.Logf("%s: unsubscribe", name)
		c.Unsubscribe(pk)
		if l.subs[f] {
			delete(l.subs, f)
			t.unsubs[b]++
			t.remove = true
			t.k.Count("unsubscribed", 1)
		}
	case x < 18:
		if l == nil {
			return true
		}
		var c = na.Conn(nb)
		if c == nil {
			return fail("no connection")
		}
		var network = r.Intn(3) == 0 && !l.udp
		t.Logf("%s: close, by network %v", name, network)
		if network {
			c.Connection.Close()
			t.k.Count("closed_by_network", 1)
		} else {
			c.Close()
			for _, x := range na.Connections() {
				if x == c {
					return fail("the connection is listed after Close")
				}
			}
		}
		if l.udp { // nobody tells the peer
			if x := nb.Conn(na); x != nil {
				x.Close()
			}
		}
		t.drop(mk(a, b))
		t.k.Count("closed", 1)
	case x < 19:
		if l == nil {
			return true
		}
		var c = na.Conn(nb)
		if c == nil {
			return fail("no connection")
		}
		var fs, err = c.RemoteFeeds()
		if !t.public[b] {
			t.k.Count("remote_feeds_not_public", 1)
			if err == nil {
				return fail("RemoteFeeds of not public peer returns %s", t.fs(fs))
			}
			return true
		}
		var want []string
		for f := range t.shares[b] {
			want = append(want, fmt.Sprint(f))
		}
		t.k.Count("remote_feeds", 1)
		if err != nil || t.fs(fs) != list(want) {
			return fail("RemoteFeeds returns %s, %v; want %s", t.fs(fs), err, list(want))
		}
	default:
		t.k.Count("blank", 1)
		t.Logf("%s: blank feed", name)
		if err := na.Share(nodem.PK{}); err == nil {
			return fail("Share of blank feed returns no error")
		}
		na.DontShare(nodem.PK{})
		if c := na.Conn(nb); c != nil {
			if err := c.Subscribe(nodem.PK{}); err == nil {
				return fail("Subscribe to blank feed returns no error")
			}
			c.Unsubscribe(nodem.PK{})
		}
	}
	return true
}

// the same by many goroutines
func concurrent(k *kit.K, r *rand.Rand, i int) {
	var t = newTest(k, r, fmt.Sprint("concurrent ", i))
	t.multi = true
	if r.Intn(2) == 0 { // the same feed
		t.feeds = t.feeds[:1]
		for _, n := range t.Nodes {
			n.Share(t.feeds[0])
		}
	}
	for a := range t.Nodes {
		for b := 0; b < a; b++ {
			if r.Intn(3) > 0 {
				t.Nodes[a].Connect(t.Nodes[b], false)
			}
		}
		for _, pk := range t.feeds {
			if r.Intn(2) == 0 {
				t.Nodes[a].Share(pk)
			}
		}
	}
	var wg sync.WaitGroup
	var calm = r.Intn(2) == 0 // subscribe and unsubscribe only
	for g := 2 + r.Intn(4); g > 0; g-- {
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			for j := 5 + r.Intn(25); j > 0; j-- {
				t.any(r, calm)
			}
		}(rand.New(rand.NewSource(r.Int63())))
	}
	wg.Wait()
	k.Count("concurrent", 1)
	var bad string
	if !nodem.Wait(10*time.Second, func() bool { bad = t.agree(); return bad == "" }) {
		t.Report("disagree", "%s\n%s", bad, t.CB())
	}
	var left int
	for i := range t.Nodes {
		for _, c := range t.Nodes[i].Connections() {
			left += len(c.Feeds())
		}
	}
	k.Count("concurrent_subscriptions_left", left)
	t.Close()
	k.Case(bad == "" && left > 0, t.Log())
}

func (t *test) any(r *rand.Rand, calm bool) {
	var a, b = r.Intn(len(t.Nodes)), r.Intn(len(t.Nodes) - 1)
	if b >= a {
		b++
	}
	var f = r.Intn(len(t.feeds))
	var pk = t.feeds[f]
	var na, nb = t.Nodes[a], t.Nodes[b]
	var name = fmt.Sprintf("n%d-n%d, feed %d", a, b, f)
	if r.Intn(3) == 0 {
		time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
	}
	var x = r.Intn(12)
	if calm {
		x = 4 + r.Intn(6)
	}
	switch c := na.Conn(nb); {
	case x < 2:
		t.Logf("%s: connect", name)
		na.Connect(nb, false)
	case x == 2:
		na.Share(pk)
	case x == 3:
		t.Logf("%s: n%d stops sharing", name, a)
		na.DontShare(pk)
	case c == nil:
	case x < 8:
		t.Logf("%s: subscribe", name)
		var err = c.Subscribe(pk)
		t.Logf("%s: subscribed: %v", name, err)
	case x < 10:
		t.Logf("%s: unsubscribe", name)
		c.Unsubscribe(pk)
	case x == 10 && r.Intn(2) == 0:
		t.Logf("%s: close", name)
		c.Close()
	case x == 11:
		c.RemoteFeeds()
	}
}

// at rest
func (t *test) agree() string {
	for i, n := range t.Nodes {
		var cs = n.Connections()
		var seen = make(map[nodem.PK]bool)
		var idle = make(map[*node.Conn]bool)
		for _, c := range n.ConnectionsOfFeed(nodem.PK{}) {
			idle[c] = true
		}
		var all = make(map[*node.Conn]bool)
		for _, c := range cs {
			all[c] = true
			if seen[c.PeerID()] {
				return fmt.Sprintf("n%d has two connections with n%s", i, t.nodeName(c.PeerID()))
			}
			seen[c.PeerID()] = true
			var peer *node.Conn
			for _, m := range t.Nodes {
				if m.ID() == c.PeerID() {
					peer = m.Conn(n)
				}
			}
			var name = fmt.Sprintf("n%d-n%s", i, t.nodeName(c.PeerID()))
			if peer == nil {
				return fmt.Sprintf("%s: the connection is listed on one side", name)
			}
			if x, y := t.fs(c.Feeds()), t.fs(peer.Feeds()); x != y {
				return fmt.Sprintf("%s: the connection has feeds [%s] on one side and [%s] on other", name, x, y)
			}
			if c.IsIncoming() == peer.IsIncoming() {
				return fmt.Sprintf("%s: both sides have the same direction", name)
			}
			if idle[c] != (len(c.Feeds()) == 0) {
				return fmt.Sprintf("%s: listed as idle: %v, but it has feeds [%s]", name, idle[c], t.fs(c.Feeds()))
			}
			for _, pk := range c.Feeds() {
				if !n.IsSharing(pk) {
					return fmt.Sprintf("%s: subscribed to feed %s, but the node doesn't share it", name, t.feedName(pk))
				}
			}
			for _, pk := range t.feeds {
				var in bool
				for _, x := range n.ConnectionsOfFeed(pk) {
					in = in || x == c
				}
				var has bool
				for _, x := range c.Feeds() {
					has = has || x == pk
				}
				if in != has {
					return fmt.Sprintf("%s: connection of feed %s: %v, feed of connection: %v", name, t.feedName(pk), in, has)
				}
			}
		}
		for _, pk := range append([]nodem.PK{{}}, t.feeds...) {
			for _, c := range n.ConnectionsOfFeed(pk) {
				if !all[c] {
					return fmt.Sprintf("n%d: closed connection %s is listed as connection of feed %s", i, c, t.feedName(pk))
				}
			}
		}
		if x := t.fs(n.Feeds()); true {
			var ss []string
			for f, pk := range t.feeds {
				if n.IsSharing(pk) {
					ss = append(ss, fmt.Sprint(f))
				}
			}
			if x != list(ss) {
				return fmt.Sprintf("n%d: feeds [%s], but it shares [%s]", i, x, list(ss))
			}
		}
	}
	return ""
}
