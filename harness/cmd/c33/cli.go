package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/nodem"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject/registry"
)

// run the tool
func (t *test) tool(stdin string, args ...string) (out, errs string, code int) {
	var ctx, cancel = context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	var c = exec.CommandContext(ctx, filepath.Join(build, "cxocli"), append([]string{"-a", t.rpc}, args...)...)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr, c.Stdin = &o, &e, strings.NewReader(stdin)
	c.Env = []string{"HOME=" + tmp}
	var err = c.Run()
	if ctx.Err() != nil {
		t.Report("cli-hang", "cxocli %q doesn't exit\n%s", args, e.String())
	}
	if x, ok := err.(*exec.ExitError); ok {
		code = x.ExitCode()
	} else if err != nil {
		panic(err)
	}
	out, errs = o.String(), e.String()
	if strings.Contains(errs, "panic") || strings.Contains(errs, "goroutine ") || code > 1 || code < 0 {
		t.Report("cli-crash", "cxocli %q: exit code %d\n%s", args, code, errs)
	}
	return
}

func (t *test) exec(cmd string) (out, errs string, ok bool) {
	var code int
	out, errs, code = t.tool("", "-e", cmd)
	t.k.Count("cli", 1)
	t.Logf("cli %s: %d %s", cmd, code, strings.TrimSpace(errs))
	return out, strings.TrimSpace(errs), code == 0
}

// trimmed, not blank, sorted
func body(s string) string {
	var ls []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			ls = append(ls, l)
		}
	}
	return lines(ls)
}

func rootInfo(z *registry.Root) (ls []string) {
	ls = append(ls, "root  "+z.Hash.Hex(), "registry:   "+z.Reg.String(), "feed:       "+z.Pub.Hex(), fmt.Sprint("nonce:      ", z.Nonce), fmt.Sprint("seq:        ", z.Seq),
		fmt.Sprint("time:       ", time.Unix(0, z.Time)), "sig:        "+z.Sig.Hex(), "prev:       "+z.Prev.Hex(), fmt.Sprintf("descriptor: %q", z.Descriptor))
	var refs = make([]string, 0)
	for _, d := range z.Refs {
		refs = append(refs, d.Short())
	}
	return append(ls, fmt.Sprintf("refs:       %#v", refs))
}

func stat(s *node.Stat) (ls []string) {
	ls = append(ls, "amount of cached objects:        "+s.CacheObjects.Amount.String(), "volume of cached objects:        "+s.CacheObjects.Volume.String(),
		"amount of all objects:           "+s.AllObjects.Amount.String(), "volume of all objects:           "+s.AllObjects.Volume.String(),
		"amount of used objects:          "+s.UsedObjects.Amount.String(), "volume of used objects:          "+s.UsedObjects.Volume.String())
	for pk, f := range s.Feeds {
		ls = append(ls, pk.Hex())
		for nonce, h := range f.Heads {
			ls = append(ls, fmt.Sprint(nonce))
			if h.Len > 0 {
				ls = append(ls, "hash: "+h.Last.Hash.Hex(), fmt.Sprint("seq:  ", h.Last.Seq))
			}
			if h.Len > 1 {
				ls = append(ls, "hash: "+h.First.Hash.Hex(), fmt.Sprint("seq:  ", h.First.Seq))
			}
		}
	}
	return
}

// the tool shows and does what the API does
func (t *test) cli() {
	var r, n = t.r, t.n
	var pk = t.feed()
	for pk == (nodem.PK{}) {
		pk = t.feed()
	}
	var show = func(cmd string, f func() string) {
		var out, errs string
		var ok bool
		var want string
		if !nodem.Wait(5*time.Second, func() bool {
			out, errs, ok = t.exec(cmd)
			want = f()
			return ok && body(out) == want
		}) {
			t.Report("cli", "%q shows %q %s, want %q", cmd, body(out), errs, want)
		}
		t.seen = true
	}
	var same = func(cmd string, out, errs string, ok bool, want string, err error) {
		if err != nil {
			t.k.Count("cli_errors", 1)
		}
		if ok != (err == nil) || errs != estr(err) || ok && body(out) != want {
			t.Report("cli", "%q shows %q %q (%v), want %q %v", cmd, out, errs, ok, want, err)
		}
	}
	var effect = func(cmd string, yes bool) {
		t.seen = true
		if !yes {
			t.Report("cli", "no effect of %q\n%s", cmd, t.Log())
		}
	}
	switch r.Intn(16) {
	case 0:
		var cmd = "share feed " + pk.Hex()
		var _, _, ok = t.exec(cmd)
		effect(cmd, ok && n.IsSharing(pk))
	case 1:
		var cmd = "don't share feed " + pk.Hex()
		var _, _, ok = t.exec(cmd)
		effect(cmd, ok && !n.IsSharing(pk))
	case 2:
		show("list feeds", func() string {
			var ls = []string{}
			for _, pk := range n.Feeds() {
				ls = append(ls, "- "+pk.Hex())
			}
			if len(ls) == 0 {
				ls = []string{"no feeds are shared"}
			}
			return lines(ls)
		})
	case 3:
		show("is shareing "+pk.Hex(), func() string {
			if n.IsSharing(pk) {
				return "yes, it is"
			}
			return "no, it is not"
		})
	case 4:
		show("connections", func() string {
			if cs := t.apiConns(); len(cs) > 0 {
				return lines(cs)
			}
			return "no connections"
		})
	case 5:
		show("connections of feed "+pk.Hex(), func() string {
			if cs := t.apiFeedConns(pk); len(cs) > 0 {
				return lines(cs)
			}
			return "no connections"
		})
	case 6, 7:
		var nonce, seq = uint64(1 + r.Intn(3)), uint64(r.Intn(3))
		var pk = pk
		if r.Intn(2) == 0 {
			pk, nonce, seq = t.some(pk, nonce, seq)
		}
		var again = func(cmd string, f func() (string, error)) { // a root can be received meanwhile
			nodem.Wait(5*time.Second, func() bool {
				var want, err = f()
				var out, errs, ok = t.exec(cmd)
				if w2, err2 := f(); w2 != want || estr(err2) != estr(err) {
					return false
				}
				same(cmd, out, errs, ok, want, err)
				return true
			})
		}
		again(fmt.Sprint("root info ", pk.Hex(), " ", nonce, " ", seq), func() (want string, err error) {
			var z, e = n.Container().Root(pk, nonce, seq)
			if e == nil {
				want = lines(rootInfo(z))
			}
			return want, e
		})
		again(fmt.Sprint("root tree ", pk.Hex(), " ", nonce, " ", seq), func() (string, error) {
			var tree, err = t.tree(pk, nonce, seq)
			return body(tree), err
		})
	case 8:
		var cmd = "last root " + pk.Hex()
		var z, err = nodem.Last(n.Container(), pk)
		var out, errs, ok = t.exec(cmd)
		if z2, _ := nodem.Last(n.Container(), pk); z2 != nil && z != nil && z2.Hash != z.Hash || (z == nil) != (z2 == nil) {
			return // received meanwhile
		}
		var want string
		if err == nil {
			want = lines(rootInfo(z))
		}
		same(cmd, out, errs, ok, want, err)
	case 9:
		var out, errs, ok = t.exec("stat")
		var missing string
		if !nodem.Wait(5*time.Second, func() bool {
			missing = ""
			var has = make(map[string]int)
			for _, l := range strings.Split(out, "\n") {
				has[strings.TrimSpace(l)]++
			}
			for _, l := range stat(n.Stat()) {
				if has[l]--; has[l] < 0 {
					missing = l
				}
			}
			if missing != "" {
				out, errs, ok = t.exec("stat")
			}
			return missing == "" && ok
		}) {
			t.Report("cli", "stat doesn't show %q: %s %s", missing, out, errs)
		}
	case 10:
		var cmd = "tcp address"
		var want = n.TCP().Address()
		if want == "" {
			want = "doesn't listen"
		}
		var out, errs, ok = t.exec(cmd)
		same(cmd, out, errs, ok, want, nil)
	case 11:
		var p = t.peers[r.Intn(len(t.peers))]
		if n.Conn(p) != nil || p.Conn(n) != nil {
			return
		}
		var kind, addr = "tcp", p.TCPAddr()
		if t.udp && r.Intn(2) == 0 {
			kind, addr = "udp", p.UDPAddr()
		}
		var cmd = kind + " connect " + addr
		var _, _, ok = t.exec(cmd)
		effect(cmd, ok && n.Conn(p) != nil && isTCP(n.Conn(p)) == (kind == "tcp"))
		effect(cmd, nodem.Wait(10*time.Second, func() bool { return p.Conn(n) != nil }))
	case 12, 13:
		var udp = t.udp && r.Intn(2) == 0
		var cn = t.conn(udp)
		if cn == nil {
			return
		}
		var kind = "tcp"
		if udp {
			kind = "udp"
		}
		switch r.Intn(3) {
		case 0:
			var cmd = kind + " subsribe " + cn.Address() + " " + pk.Hex()
			var _, errs, ok = t.exec(cmd)
			if ok {
				effect(cmd, strings.Contains(keys(cn.Feeds()), pk.Hex()))
			} else {
				same(cmd, "", errs, ok, "", cn.Subscribe(pk))
			}
		case 1:
			var cmd = kind + " unsubscribe " + cn.Address() + " " + pk.Hex()
			var _, _, ok = t.exec(cmd)
			effect(cmd, ok && nodem.Wait(5*time.Second, func() bool { return !strings.Contains(keys(cn.Feeds()), pk.Hex()) }))
		case 2:
			var cmd = kind + " disconnect " + cn.Address()
			var p = t.peer(cn)
			var _, _, ok = t.exec(cmd)
			effect(cmd, ok && n.Conn(p) != cn)
			if x := p.Conn(n); x != nil && udp {
				x.Close()
			}
			effect(cmd, nodem.Wait(10*time.Second, func() bool { return p.Conn(n) == nil }))
		}
	case 14: // malformed
		var cmds = []string{"share feed", "share feed zz", "share feed " + pk.Hex()[2:], "share feed " + pk.Hex() + "00", "share feed " + pk.Hex() + " x", "don't share feed", "root info " + pk.Hex(),
			"root info " + pk.Hex() + " -1 0", "root info " + pk.Hex() + " 1 18446744073709551616", "root info " + pk.Hex() + " 1 0 0", "root tree " + pk.Hex() + " a b", "list feeds x", "connections x",
			"tcp connect", "tcp connect a b", "tcp subsribe " + pk.Hex(), "tcp subsribe 127.0.0.1:7 " + pk.Hex(), "udp unsubscribe 127.0.0.1:7 " + pk.Hex(), "stat stat", "last root", "tcp", " ", "foo", "is shareing x",
			"shar", "connections of feed", "connections of", "tcp address x", "-", "don't", "root", "last root " + pk.Hex()[:64]}
		var cmd = cmds[r.Intn(len(cmds))]
		var feeds, cs = keys(n.Feeds()), lines(t.apiConns())
		var out, errs, ok = t.exec(cmd)
		t.k.Count("cli_errors", 1)
		if ok || errs == "" {
			t.Report("cli-malformed", "%q: exit code is 0, output %q %q", cmd, out, errs)
		}
		if keys(n.Feeds()) != feeds || lines(t.apiConns()) != cs {
			t.Report("cli-malformed", "%q has an effect", cmd)
		}
	case 15: // many commands, and the last one is "quit"
		var cmds, want []string
		for i := r.Intn(5); i > 0; i-- {
			switch r.Intn(4) {
			case 0:
				cmds = append(cmds, "is shareing "+pk.Hex())
				if n.IsSharing(pk) {
					want = append(want, "> yes, it is")
				} else {
					want = append(want, "> no, it is not")
				}
			case 1:
				cmds = append(cmds, "tcp address")
				if a := n.TCP().Address(); a != "" {
					want = append(want, "> "+a)
				} else {
					want = append(want, "> doesn't listen")
				}
			case 2:
				cmds = append(cmds, "zz"+printable(r, r.Intn(30))) // an error

			case 3:
				cmds = append(cmds, "")

			}
		}
		want = append(want, "> cya", "enter 'help' to get help, use 'tab' to complite command")
		var end = []string{"quit\n", "exit\n"}[r.Intn(2)]
		var out, errs, code = t.tool(strings.Join(append(cmds, end), "\n"))
		// the prompts are shown without line breaks if there is nothing to show
		var plain = func(s string) string { return body(strings.Replace(s, "> ", "", -1)) }
		var got = plain(out)
		t.k.Count("cli_interactive", 1)
		if code != 0 || got != plain(strings.Join(want, "\n")) {
			t.Report("cli", "%q shows %q %s (%d), want %q", cmds, got, errs, code, plain(strings.Join(want, "\n")))
		}
	}
}

func printable(r *rand.Rand, n int) (s string) {
	for ; n > 0; n-- {
		s += string(rune(' ' + r.Intn(95)))
	}
	return
}
