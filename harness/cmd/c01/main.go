// C01: gating and integrity of log records.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"

	"github.com/skycoin/cxo/node/log"

	"verif/kit"
)

func main() {
	kit.Main("C01", kit.Opts{
		Rule: "random logger configurations (debug switch, pins, prefix) and " +
			"random sequences of calls of every method, sequential and from " +
			"many goroutines (race detector on), against a model of what must " +
			"be written; a case is non-trivial if at least one call must be " +
			"written and at least one must be suppressed",
		MinCases: 200,
		Need: []string{"records_written", "debug_suppressed", "concurrent_records",
			"panics", "shared_arguments"},
	}, run)
}

func run(k *kit.K) {
	defaults(k)
	for i := 0; i < k.N(1500, 60000); i++ {
		sequential(k, i)
	}
	for i := 0; i < k.N(30, 600); i++ {
		concurrent(k, i)
	}
	reconfigure(k)
}

// a Writer that fails the check if records overlap; it's not synchronized
// deliberately: the race detector watches for unsynchronized writes
type sink struct {
	recs []string
	part int
}

func (s *sink) Write(p []byte) (int, error) {
	s.recs = append(s.recs, string(p))
	return len(p), nil
}

func pickPin(r *rand.Rand) log.Pin {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return log.All
	case 2:
		return log.Pin(r.Uint64())
	case 3: // the highest
		return log.Pin(1) << 63
	default:
		return log.Pin(1) << uint(r.Intn(64))
	}
}

// NewConfig: all pins, no debug
func defaults(k *kit.K) {
	var c = log.NewConfig()
	if c.Debug {
		k.Violate("default-debug", "NewConfig", "debug is on by default")
	}
	if c.Pins != log.All || c.Pins != ^log.Pin(0) {
		k.Violate("default-pins", "NewConfig", "not all pins: %x", c.Pins)
	}
	if l := log.NewLogger(c); l.Pins() != 0 {
		k.Violate("default-off", "NewLogger(NewConfig())",
			"pins are %x while debug is off", l.Pins())
	}
}

// an error record is written also if there is no error
func mayErr(r *rand.Rand, i int) error {
	if r.Intn(4) == 0 {
		return nil
	}
	return fmt.Errorf("e%d", i)
}

type call struct {
	kind string // print, debug, error
	pin  log.Pin
	msg  string
}

func sequential(k *kit.K, n int) {
	var (
		r    = k.Rng("seq", n)
		conf = log.NewConfig()
		out  = new(sink)
		want []call
		desc strings.Builder
		supp int
	)
	conf.Prefix = []string{"", "[p] ", "node: "}[r.Intn(3)]
	conf.Debug = r.Intn(4) != 0
	conf.Pins = pickPin(r)
	conf.Output = out
	var l = log.NewLogger(conf)
	l.SetFlags(0)
	fmt.Fprintf(&desc, "debug=%v pins=%x prefix=%q:", conf.Debug, conf.Pins,
		conf.Prefix)
	var effective log.Pin
	if conf.Debug {
		effective = conf.Pins
	}
	if l.Pins() != effective {
		k.Violate("pins", desc.String(), "Pins() is %x, want %x", l.Pins(),
			effective)
	}
	var calls = 1 + r.Intn(20)
	for i := 0; i < calls; i++ {
		var (
			c  = call{msg: fmt.Sprintf("m%d-%d", n, i)}
			op = r.Intn(15)
		)
		c.pin = pickPin(r)
		if op < 6 && r.Intn(2) == 0 { // aim at the configured
			c.pin &= conf.Pins
		} else if op < 6 && r.Intn(2) == 0 {
			c.pin &^= conf.Pins
		}
		if r.Intn(8) == 0 {
			c.msg += "\nsecond line"
		}
		switch op {
		case 0, 1:
			c.kind = "debug"
			l.Debug(c.pin, c.msg)
		case 2, 3:
			c.kind = "debug"
			l.Debugln(c.pin, c.msg)
		case 4, 5:
			c.kind = "debug"
			l.Debugf(c.pin, "%s", c.msg)
		case 6:
			c.kind = "error"
			l.Error(mayErr(r, i), c.msg)
		case 7:
			c.kind = "error"
			l.Errorln(mayErr(r, i), c.msg)
		case 8:
			c.kind = "error"
			l.Errorf(mayErr(r, i), "%s", c.msg)
		case 9:
			c.kind = "print"
			l.Print(c.msg)
		case 10:
			c.kind = "print"
			l.Println(c.msg)
		case 11:
			c.kind = "print"
			l.Printf("%s", c.msg)
		default: // panics write, too
			c.kind = "print"
			var p = func() (p interface{}) {
				defer func() { p = recover() }()
				switch op {
				case 12:
					l.Panic(c.msg)
				case 13:
					l.Panicln(c.msg)
				case 14:
					l.Panicf("%s", c.msg)
				}
				return
			}()
			if p == nil {
				k.Violate("panic", desc.String(), "no panic")
			}
			k.Count("panics", 1)
		}
		fmt.Fprintf(&desc, " %s(%x)", c.kind, c.pin)
		if c.kind == "debug" && c.pin&effective == 0 {
			supp++
			k.Count("debug_suppressed", 1)
		} else {
			want = append(want, c)
		}
		// at most one record per call, and it's written synchronously
		if len(out.recs) != len(want) {
			k.Violate("count", desc.String(),
				"%d records are written, want %d; the last call is %s "+
					"with pin %x", len(out.recs), len(want), c.kind, c.pin)
			return
		}
	}
	for i, c := range want {
		var rec = out.recs[i]
		if !strings.HasSuffix(rec, "\n") {
			k.Violate("newline", desc.String(), "record %q is not a line", rec)
		}
		if strings.HasSuffix(rec, "\n\n") {
			k.Violate("newline", desc.String(), "record %q is not a line", rec)
		}
		if !strings.HasPrefix(rec, conf.Prefix) {
			k.Violate("prefix", desc.String(), "record %q without prefix", rec)
		}
		if strings.Count(rec, c.msg) != 1 {
			k.Violate("message", desc.String(), "record %q is not of %q", rec,
				c.msg)
		}
		var mark = strings.HasPrefix(rec[len(conf.Prefix):], "[DBG]")
		if mark != (c.kind == "debug") {
			k.Violate("mark", desc.String(), "record %q of %s", rec, c.kind)
		}
		mark = strings.HasPrefix(rec[len(conf.Prefix):], "[ERR]")
		if mark != (c.kind == "error") {
			k.Violate("mark", desc.String(), "record %q of %s", rec, c.kind)
		}
		k.Count("records_written", 1)
	}
	k.Case(len(want) > 0 && supp > 0, desc.String())
	if n < 3 {
		k.Sample(desc.String())
	}
}

// many goroutines share a logger: every record whole, exactly once, records
// of a goroutine in order
func concurrent(k *kit.K, n int) {
	var (
		r    = k.Rng("conc", n)
		conf = log.NewConfig()
		out  = new(sink)
		gs   = 2 + r.Intn(8)
		ops  = 50 + r.Intn(100)
		wg   sync.WaitGroup
		want = make([][]string, gs)

		// arguments the goroutines share, with spare place behind them
		shared = make([]interface{}, 1, 8)
	)
	shared[0] = "shared"
	conf.Debug = true
	conf.Pins = pickPin(r) | 1
	conf.Output = out
	var l = log.NewLogger(conf)
	l.SetFlags(0)
	for g := 0; g < gs; g++ {
		var gr = rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < ops; i++ {
				var (
					id  = fmt.Sprintf("<%d.%d>", g, i)
					pin = pickPin(gr)
					dbg bool
				)
				switch gr.Intn(13) {
				case 9:
					l.Debug(pin, shared...)
					continue
				case 10:
					l.Debugln(pin, shared...)
					continue
				case 11:
					l.Error(nil, shared...)
					continue
				case 12:
					l.Println(shared...)
					continue
				case 0:
					l.Debug(pin, id)
					dbg = true
				case 1:
					l.Debugln(pin, id)
					dbg = true
				case 2:
					l.Debugf(pin, "%s", id)
					dbg = true
				case 3:
					l.Error(fmt.Errorf("e"), id)
				case 4:
					l.Errorln(fmt.Errorf("e"), id)
				case 5:
					l.Errorf(fmt.Errorf("e"), "%s", id)
				case 6:
					l.Print(id)
				case 7:
					l.Println(id)
				default:
					l.Printf("%s", id)
				}
				if !dbg || pin&conf.Pins != 0 {
					want[g] = append(want[g], id)
				}
				if gr.Intn(8) == 0 {
					runtime.Gosched()
				}
			}
		}(g)
	}
	wg.Wait()
	var got = make([][]string, gs)
	var cas = fmt.Sprintf("%d goroutines, %d calls each, pins %x", gs, ops,
		conf.Pins)
	for _, rec := range out.recs {
		if strings.HasSuffix(rec, "shared\n") {
			k.Count("shared_arguments", 1)
			continue
		}
		if strings.Count(rec, "\n") != 1 || strings.Count(rec, "<") != 1 {
			k.Violate("mixed", cas, "record %q", rec)
			return
		}
		var g, i int
		if _, err := fmt.Sscanf(rec[strings.Index(rec, "<"):], "<%d.%d>", &g,
			&i); err != nil {
			k.Violate("mixed", cas, "record %q: %v", rec, err)
			return
		}
		got[g] = append(got[g], fmt.Sprintf("<%d.%d>", g, i))
	}
	for g := range got {
		if fmt.Sprint(got[g]) != fmt.Sprint(want[g]) {
			k.Violate("lost", cas, "goroutine %d: got %v, want %v", g, got[g],
				want[g])
			return
		}
	}
	k.Count("concurrent_records", len(out.recs))
	k.Case(true, cas+fmt.Sprint(len(out.recs)))
}

// loggers are independent, and reconfiguration of the output, the prefix and
// the flags doesn't lose records
func reconfigure(k *kit.K) {
	for n := 0; n < k.N(60, 600); n++ {
		var (
			r        = k.Rng("re", n)
			a, b     bytes.Buffer
			ca, cb   = log.NewConfig(), log.NewConfig()
			wa, wb   int
			prefixes = []string{"", "x ", "y "}
		)
		ca.Output, cb.Output = &a, &b
		ca.Debug, cb.Debug = true, true
		ca.Pins, cb.Pins = 1, 2
		var la, lb = log.NewLogger(ca), log.NewLogger(cb)
		la.SetFlags(0)
		lb.SetFlags(0)
		for i := 0; i < 20; i++ {
			switch r.Intn(4) {
			case 0:
				la.SetPrefix(prefixes[r.Intn(3)])
			case 1:
				la.Debug(1, "one")
				la.Debug(2, "two")
				wa++
			case 2:
				lb.Debug(1, "one")
				lb.Debug(2, "two")
				wb++
			case 3: // a copy of the config can't change the logger
				ca.Pins, ca.Debug = log.All, false
			}
		}
		if strings.Count(a.String(), "one") != wa ||
			strings.Contains(a.String(), "two") {
			k.Violate("independent", "two loggers", "first wrote %q, want %d",
				a.String(), wa)
		}
		if strings.Count(b.String(), "two") != wb ||
			strings.Contains(b.String(), "one") {
			k.Violate("independent", "two loggers", "second wrote %q, want %d",
				b.String(), wb)
		}
		var c bytes.Buffer
		la.SetOutput(&c)
		la.Debug(1, "one")
		if strings.Count(c.String(), "one") != 1 {
			k.Violate("output", "SetOutput", "wrote %q", c.String())
		}
		k.Case(wa > 0 && wb > 0, fmt.Sprint("re", wa, wb))
	}
}
