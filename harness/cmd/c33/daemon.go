package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verif/nodem"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/skycoin/src/cipher"
)

// the daemon driven by the tool
func (t *test) daemon() {
	var r = t.r
	var dir = filepath.Join(tmp, fmt.Sprint("d", t.i))
	if err := os.Mkdir(dir, 0700); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	t.rpc = nodem.FreePort()
	var tcp = nodem.FreePort()
	t.Node(nodem.Opt{Timeout: 10 * time.Second, Loose: true})
	t.Node(nodem.Opt{Timeout: 10 * time.Second, Loose: true})
	var own, sub = t.Nodes[0], t.Nodes[1]
	var f = t.Feed(0, true)
	own.Share(f.PK)

	var start = func() (cmd *exec.Cmd, errs *bytes.Buffer, done chan error) {
		cmd = exec.Command(filepath.Join(build, "cxod"), "-data-dir", dir, "-rpc", t.rpc, "-tcp", tcp, "-udp", "", "-max-heads", "10")
		errs = new(bytes.Buffer)
		cmd.Stdout, cmd.Stderr = errs, errs
		cmd.Env = []string{"HOME=" + tmp}
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		done = make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		if !nodem.Wait(20*time.Second, func() bool {
			var c, err = node.NewRPCClient(t.rpc)
			if err == nil {
				c.Close()
			}
			return err == nil
		}) {
			cmd.Process.Kill()
			<-done
			t.Report("daemon-start", "cxod doesn't listen for RPC\n%s", errs)
		}
		return
	}
	var last *nodem.Root
	for i := 1 + r.Intn(3); i > 0 && t.Bad() == 0; i-- {
		var cmd, errs, done = start()
		if t.Bad() > 0 {
			break
		}
		var must = func(c string) {
			if _, e, ok := t.exec(c); !ok {
				t.Report("daemon-cli", "%q: %s\n%s", c, e, errs)
			}
		}
		var has = func(x *nodem.Root) bool {
			var out, _, ok = t.exec("last root " + f.PK.Hex())
			return ok && strings.Contains(out, x.R.Hash.Hex())
		}
		if last == nil {
		} else if out, e, ok := t.exec(fmt.Sprint("root info ", f.PK.Hex(), " ", last.R.Nonce, " ", last.R.Seq)); !ok || !strings.Contains(out, last.R.Hash.Hex()) {
			t.Report("daemon-lost", "no root %d/%d after the daemon is started again: %s", last.R.Nonce, last.R.Seq, e)
		}
		must("tcp connect " + own.TCPAddr())
		must("tcp subsribe " + own.TCPAddr() + " " + f.PK.Hex())
		// the subscriber makes the daemon accept
		sub.Share(f.PK)
		var sc, err = sub.TCP().Connect(tcp)
		if err == nil {
			err = sc.Subscribe(f.PK)
		}
		if err != nil {
			t.Report("daemon-link", "%v\n%s", err, errs)
		}
		for j := 1 + r.Intn(3); j > 0 && t.Bad() == 0; j-- {
			if last = t.Publish(f, 1); last == nil {
				break
			}
			if !nodem.Wait(30*time.Second, func() bool { return has(last) }) {
				t.Report("daemon", "the daemon has no root %d/%d\n%s", last.R.Nonce, last.R.Seq, errs)
			} else if !nodem.Wait(30*time.Second, func() bool { return sub.Has(last) }) {
				t.Report("daemon", "a subscriber of the daemon has no root %d/%d\n%s", last.R.Nonce, last.R.Seq, errs)
			}
			t.k.Count("daemon_roots", 1)
		}
		if r.Intn(2) == 0 {
			for j := r.Intn(4); j > 0; j-- { // in the middle of something
				t.Publish(f, 2)
			}
		}
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
			cmd.Process.Kill()
			<-done
			t.Logf("killed")
			t.k.Count("daemons_killed", 1)
		} else {
			cmd.Process.Signal(os.Interrupt)
			t.Logf("interrupted")
			select {
			case err := <-done:
				if err != nil {
					t.Report("daemon-stop", "cxod: %v\n%s", err, errs)
				}
			case <-time.After(time.Minute):
				cmd.Process.Signal(syscall.SIGQUIT)
				<-done
				t.Report("daemon-hang", "cxod doesn't stop\n%s", errs)
			}
		}
		sc.Close()
		if c := own.Connections(); len(c) > 0 {
			nodem.Wait(10*time.Second, func() bool { return len(own.Connections()) == 0 })
		}
		t.k.Count("daemons", 1)
	}
	if t.Bad() == 0 {
		var conf = skyobject.NewConfig()
		conf.DataDir = dir
		var c, err = skyobject.NewContainer(conf)
		if err != nil {
			t.Report("daemon-db", "the database can't be opened: %v", err)
		} else {
			var n int
			for _, x := range f.All() {
				if r, err := c.Root(f.PK, x.R.Nonce, x.R.Seq); err != nil {
					continue
				} else if r.Hash != x.R.Hash {
					t.Report("daemon-db", "root %d/%d differs", x.R.Nonce, x.R.Seq)
				}
				n++
				for h := range x.Reach {
					if v, _, err := c.Get(h, 0); err != nil || cipher.SumSHA256(v) != h {
						t.Report("daemon-db", "root %d/%d is listed, but it has no object %s: %v", x.R.Nonce, x.R.Seq, h.Hex()[:6], err)
					}
				}
			}
			if n == 0 {
				t.Report("daemon-db", "no roots are in the database")
			}
			c.Close()
		}
	}
	t.Close()
	t.k.Case(last != nil, strip(t.Log()))
}
