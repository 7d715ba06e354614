// C08: kills of a process that writes to the on-drive databases.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"

	"verif/cxm"
	"verif/idxm"
	"verif/kit"
)

func main() {
	if os.Getenv("C08_WRITER") != "" {
		writer()
		return
	}
	kit.Main("C08", kit.Opts{
		Rule: "a child process performs a random history of writes to both " +
			"databases acknowledging each of them, and is killed (SIGKILL) " +
			"at a random moment, during the opening too; the files are opened " +
			"again and the content must be that of the acknowledged history " +
			"with or without the one write in progress; several generations " +
			"per files; non-trivial if it was killed after a write",
		Level:    "fault_enumeration",
		MinCases: 30,
		Need:     []string{"kills", "acknowledged_writes"},
		Assume: []string{"the kernel survives: a kill of the process, not a " +
			"loss of power"},
	}, run)
}

type dbs struct {
	cx  data.CXDS
	idx data.IdxDB
}

func open(dir string) (d dbs, err error) {
	if d.cx, err = cxds.NewDriveCXDS(filepath.Join(dir, "cx")); err != nil {
		err = fmt.Errorf("cxds: %v", err)
		return
	}
	if d.idx, err = idxdb.NewDriveIdxDB(filepath.Join(dir, "idx")); err != nil {
		d.cx.Close()
		err = fmt.Errorf("idxdb: %v", err)
	}
	return
}

type models struct {
	cx  cxm.Model
	idx idxm.Feeds
}

func load(d dbs) (m models, err error) {
	if m.cx, err = cxm.Content(d.cx); err != nil {
		return
	}
	m.idx, err = idxm.Load(d.idx)
	return
}

func rng(parts ...interface{}) *rand.Rand {
	var seed int64 = 17
	for _, c := range []byte(fmt.Sprint(parts...)) {
		seed = seed*1000003 + int64(c)
	}
	return rand.New(rand.NewSource(seed))
}

// one write, d can be blank
func write(seed string, i int, px *cxm.Pool, pi *idxm.Pool, m *models, d dbs) (
	desc, bad string) {

	var r = rng(seed, "/", i)
	if r.Intn(3) == 0 { // transaction of the index
		var f idxm.Feeds
		f, desc, bad, _ = idxm.Tx(r, pi, m.idx, d.idx, 25, false)
		m.idx = f
		return
	}
	var (
		n   = r.Intn(len(px.Keys))
		key = px.Keys[n]
		val = px.Vals[n]
		inc = r.Intn(7) - 3
		x   = r.Intn(20)
		err error
		o   = m.cx[key]
	)
	var _, ok = m.cx[key]
	var add = func() {
		if inc < 0 && o.RC < uint32(-inc) {
			o.RC = 0
			return
		}
		o.RC = uint32(int(o.RC) + inc)
	}
	m.cx = m.cx.Clone()
	switch {
	case x < 9:
		if inc <= 0 {
			inc = 1 - inc
		}
		add()
		o.Val = val
		m.cx[key] = o
		desc = fmt.Sprintf("Set(%d,%d)", n, inc)
		if d.cx != nil {
			_, err = d.cx.Set(key, val, inc)
		}
	case x < 16:
		desc = fmt.Sprintf("Inc(%d,%d)", n, inc)
		if ok {
			add()
			m.cx[key] = o
		}
		if d.cx != nil {
			if _, err = d.cx.Inc(key, inc); !ok && err == data.ErrNotFound {
				err = nil
			}
		}
	case x < 18:
		desc = fmt.Sprintf("Del(%d)", n)
		delete(m.cx, key)
		if d.cx != nil {
			err = d.cx.Del(key)
		}
	default:
		desc = "IterateDel"
		for h, o := range m.cx {
			if o.RC == 0 || h[3]%5 == byte(x%5) {
				delete(m.cx, h)
			}
		}
		if d.cx != nil {
			err = d.cx.IterateDel(func(h cipher.SHA256, rc uint32, _ []byte) (
				bool, error) {
				return rc == 0 || h[3]%5 == byte(x%5), nil
			})
		}
	}
	if err != nil {
		bad = err.Error()
	}
	return
}

func pools(seed string) (*cxm.Pool, *idxm.Pool) {
	var r = rng("pools", strings.Split(seed, "-")[0])
	return cxm.NewPool(r, 12), idxm.NewPool(r)
}

func writer() {
	var (
		dir    = os.Getenv("C08_WRITER")
		seed   = os.Getenv("C08_SEED")
		px, pi = pools(seed)
		m      models
	)
	os.Stdout.WriteString("start\n")
	var d, err = open(dir)
	if err == nil {
		m, err = load(d)
	}
	if err != nil {
		fmt.Printf("error open: %v\n", err)
		os.Exit(1)
	}
	os.Stdout.WriteString("open\n")
	for i := 0; i < 100000; i++ {
		if _, bad := write(seed, i, px, pi, &m, d); bad != "" {
			fmt.Printf("error %s\n", strings.Replace(bad, "\n", " ", -1))
			os.Exit(1)
		}
		os.Stdout.WriteString(strconv.Itoa(i) + "\n")
	}
}

func run(k *kit.K) {
	for i := 0; i < k.N(120, 2500); i++ {
		files(k, i)
	}
}

func equal(d dbs, m models) string {
	if s := cxm.Compare(d.cx, m.cx); s != "" {
		return "objects: " + s
	}
	if s := idxm.Diff(d.idx, m.idx); s != "" {
		return "index: " + s
	}
	return ""
}

func files(k *kit.K, n int) {
	var (
		r = k.Rng("files", n)
		m = models{make(cxm.Model), make(idxm.Feeds)}
	)
	// a real disk makes the writes longer
	var dir, err = os.MkdirTemp("/tmp", "verif-c08-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for gen := 0; gen < 4; gen++ {
		var seed = fmt.Sprintf("%d/%d-%d", k.Seed, n, gen)
		var cmd = exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), "C08_WRITER="+dir, "C08_SEED="+seed)
		var errb bytes.Buffer
		cmd.Stderr = &errb
		var rd, wr, err = os.Pipe()
		if err != nil {
			panic(err)
		}
		cmd.Stdout = wr
		if err = cmd.Start(); err != nil {
			panic(err)
		}
		wr.Close()
		var (
			br    = bufio.NewReader(rd)
			acks  = -1 // last acknowledged
			after = r.Intn(60)
			delay = time.Duration(r.Intn(900)) * time.Microsecond
			early = r.Intn(3) == 0
			opend bool
			fail  string
			line  string
		)
		var take = func() bool {
			if line, err = br.ReadString('\n'); err != nil {
				return false
			}
			line = strings.TrimSpace(line)
			switch {
			case line == "start":
			case line == "open":
				opend = true
			case strings.HasPrefix(line, "error"):
				fail = line
			default:
				acks, _ = strconv.Atoi(line)
			}
			return true
		}
		take() // start
		if early {
			delay = time.Duration(r.Intn(1500)) * time.Microsecond
		} else {
			for acks < after && fail == "" && take() {
			}
		}
		var t = time.Now()
		for time.Since(t) < delay {
		}
		cmd.Process.Signal(syscall.SIGKILL)
		for take() {
		}
		cmd.Wait()
		rd.Close()
		io.Copy(io.Discard, &errb)
		k.Count("kills", 1)
		if !opend {
			k.Count("kills_before_open", 1)
		}
		k.Count("acknowledged_writes", acks+1)
		var cas = fmt.Sprintf("files %d, generation %d, opened: %v, %d "+
			"acknowledged writes", n, gen, opend, acks+1)
		if fail != "" {
			k.Violate("write", cas, "the writer: %s", fail)
			return
		}
		k.Case(acks >= 0, cas)
		// what must be there
		var (
			px, pi = pools(seed)
			last   string
			next   = m
		)
		for i := 0; i <= acks; i++ {
			last, _ = write(seed, i, px, pi, &m, dbs{})
		}
		next = m
		var prog, _ = write(seed, acks+1, px, pi, &next, dbs{})
		d, err := open(dir)
		if err != nil {
			k.Violate("open", cas, "the databases can't be opened after the "+
				"kill: %v", err)
			return
		}
		k.Guard("panic", cas, func() {
			var bad = equal(d, m)
			if bad != "" && opend {
				if nb := equal(d, next); nb == "" {
					m, bad = next, ""
					k.Count("kills_within_writes", 1)
				}
			}
			if bad != "" {
				k.Violate("content", cas, "%s; last acknowledged %s, in "+
					"progress %s", bad, last, prog)
			}
			if s := cxm.Stats(d.cx, m.cx); bad == "" && s != "" {
				k.Violate("stat", cas, "%s", s)
			}
		})
		d.cx.Close()
		d.idx.Close()
		if n == 0 {
			k.Sample(cas)
		}
		if k.Bad() > 0 {
			return
		}
	}
}
