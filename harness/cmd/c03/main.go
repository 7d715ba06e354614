// C03: command-line flags and validation of configurations.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/log"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/kit"
)

func main() {
	kit.Main("C03", kit.Opts{
		Rule: "random initial configurations of the logger, the container and " +
			"the node, random subsets of command-line flags with random values " +
			"and orders; after the parsing every field is compared with a " +
			"model; plus random configurations against the documented " +
			"validity limits; non-trivial if at least one flag is given or a " +
			"limit is crossed",
		MinCases: 500,
		Need:     []string{"flags_given", "flags_absent", "loggers", "rejected", "accepted"},
	}, run)
}

func run(k *kit.K) {
	for i := 0; i < k.N(3000, 100000); i++ {
		logFlags(k, i)
	}
	for i := 0; i < k.N(2000, 60000); i++ {
		nodeFlags(k, i)
	}
	for i := 0; i < k.N(4000, 100000); i++ {
		validate(k, i)
	}
}

func reset() {
	flag.CommandLine = flag.NewFlagSet("test", flag.ContinueOnError)
	flag.CommandLine.SetOutput(io.Discard)
}

func randPins(r *rand.Rand) log.Pin {
	switch r.Intn(4) {
	case 0:
		return log.All
	case 1:
		return 0
	case 2:
		return log.Pin(1 << uint(r.Intn(64)))
	}
	return log.Pin(r.Uint64())
}

func word(r *rand.Rand) string {
	return []string{"", "a", "[node] ", "x=y", "-d", "127.0.0.1:80"}[r.Intn(6)]
}

// a flag with random value and what it sets
type fl struct {
	arg string
	set func()
}

func boolFlag(r *rand.Rand, name string, p *bool) fl {
	switch r.Intn(3) {
	case 0:
		return fl{"-" + name, func() { *p = true }}
	case 1:
		return fl{"-" + name + "=false", func() { *p = false }}
	}
	return fl{"--" + name + "=true", func() { *p = true }}
}

func strFlag(r *rand.Rand, name string, p *string) fl {
	var s = word(r)
	return fl{"-" + name + "=" + s, func() { *p = s }}
}

func intFlag(r *rand.Rand, name string, p *int) fl {
	var s = r.Intn(100000) - 1000
	return fl{fmt.Sprintf("-%s=%d", name, s), func() { *p = s }}
}

func durFlag(r *rand.Rand, name string, p *time.Duration) fl {
	var s = time.Duration(r.Intn(100000)) * time.Millisecond
	return fl{fmt.Sprintf("-%s=%s", name, s), func() { *p = s }}
}

func pinFlag(r *rand.Rand, p *log.Pin) fl {
	var s = randPins(r)
	if r.Intn(2) == 0 {
		return fl{fmt.Sprintf("-debug-pins=%d", s), func() { *p = s }}
	}
	return fl{fmt.Sprintf("-debug-pins=0x%x", uint64(s)), func() { *p = s }}
}

func choose(k *kit.K, r *rand.Rand, fs []fl) (args []string) {
	r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	for _, f := range fs {
		if r.Intn(2) == 0 {
			k.Count("flags_absent", 1)
			continue
		}
		k.Count("flags_given", 1)
		args = append(args, f.arg)
		f.set()
	}
	return
}

func logFlags(k *kit.K, n int) {
	var (
		r    = k.Rng("log", n)
		buf  bytes.Buffer
		c    = log.NewConfig()
		want log.Config
	)
	if r.Intn(2) == 0 {
		c.Pins = randPins(r)
		c.Prefix = word(r)
		c.Debug = r.Intn(2) == 0
	}
	c.Output = &buf
	want = c
	reset()
	c.FromFlags()
	var args = choose(k, r, []fl{
		strFlag(r, "log-prefix", &want.Prefix),
		boolFlag(r, "debug", &want.Debug),
		pinFlag(r, &want.Pins),
	})
	var cas = fmt.Sprintf("initial %v flags %q", c, args)
	if err := flag.CommandLine.Parse(args); err != nil {
		k.Violate("parse", cas, "%v", err)
		return
	}
	k.Case(len(args) > 0, cas)
	if n < 2 {
		k.Sample(cas)
	}
	if c.Prefix != want.Prefix || c.Debug != want.Debug || c.Pins != want.Pins {
		k.Violate("log-flags", cas, "got %q %v %x, want %q %v %x", c.Prefix,
			c.Debug, c.Pins, want.Prefix, want.Debug, want.Pins)
		return
	}
	// effect
	var l = log.NewLogger(c)
	l.SetFlags(0)
	for i := 0; i < 8; i++ {
		var pin = log.Pin(1) << uint(r.Intn(64))
		buf.Reset()
		l.Debug(pin, "x")
		var got, must = buf.Len() > 0, want.Debug && pin&want.Pins != 0
		if got != must {
			k.Violate("log-effect", cas, "debug record with pin %x written: "+
				"%v, must be: %v", pin, got, must)
			return
		}
		if got && !strings.HasPrefix(buf.String(), want.Prefix+"[DBG]") {
			k.Violate("log-effect", cas, "record %q", buf.String())
		}
	}
	k.Count("loggers", 1)
}

func nodeFlags(k *kit.K, n int) {
	var (
		r  = k.Rng("node", n)
		c  = node.NewConfig()
		w  = node.NewConfig()
		sc = *c.Config
		fs []fl
	)
	if r.Intn(3) == 0 {
		c.MaxConnections = r.Intn(100)
		c.TCP.Pings = time.Duration(r.Intn(1000))
		c.RPC = word(r)
		c.Config.DataDir = word(r)
		*w = *c
		sc = *c.Config
	}
	w.Config = &sc
	reset()
	c.FromFlags()
	fs = []fl{
		strFlag(r, "log-prefix", &w.Logger.Prefix),
		boolFlag(r, "debug", &w.Logger.Debug),
		pinFlag(r, &w.Logger.Pins),
		boolFlag(r, "mem-db", &w.Config.InMemoryDB),
		strFlag(r, "data-dir", &w.Config.DataDir),
		strFlag(r, "db-path", &w.Config.DBPath),
		intFlag(r, "max-connections", &w.MaxConnections),
		durFlag(r, "max-filling-time", &w.MaxFillingTime),
		intFlag(r, "max-heads", &w.MaxHeads),
		strFlag(r, "rpc", &w.RPC),
		strFlag(r, "tcp", &w.TCP.Listen),
		durFlag(r, "tcp-response-timeout", &w.TCP.ResponseTimeout),
		durFlag(r, "tcp-pings", &w.TCP.Pings),
		strFlag(r, "udp", &w.UDP.Listen),
		durFlag(r, "udp-response-timeout", &w.UDP.ResponseTimeout),
		durFlag(r, "udp-pings", &w.UDP.Pings),
		boolFlag(r, "public", &w.Public),
	}
	var args = choose(k, r, fs)
	var cas = fmt.Sprintf("node flags %q", args)
	if err := flag.CommandLine.Parse(args); err != nil {
		k.Violate("parse", cas, "%v", err)
		return
	}
	k.Case(len(args) > 0, cas)
	if n < 2 {
		k.Sample(cas)
	}
	if !reflect.DeepEqual(c, w) {
		k.Violate("node-flags", cas, "got\n%+v %+v\nwant\n%+v %+v", *c,
			*c.Config, *w, *w.Config)
	}
}

// validity limits as the configuration documents them
func validate(k *kit.K, n int) {
	var (
		r   = k.Rng("val", n)
		c   = skyobject.NewConfig()
		bad bool
	)
	for i := r.Intn(4); i > 0; i-- {
		switch r.Intn(8) {
		case 0:
			c.Degree = registry.Degree(r.Intn(5))
		case 1:
			c.RollAvgSamples = r.Intn(4) - 1
		case 2:
			c.CacheMaxAmount = r.Intn(5) - 2
		case 3:
			c.CacheMaxVolume = (r.Intn(5) - 1) * 1024 * 1024 * 5
		case 4:
			c.CachePolicy = []skyobject.CachePolicy{skyobject.LRU,
				skyobject.LFU, 17, -1}[r.Intn(4)]
		case 5:
			c.CacheCleaning = []float64{0.1, 0.49, 0.5, 0.7, 0.9, 0.91, 1,
				-1}[r.Intn(8)]
		case 6:
			c.CacheMaxItemSize = r.Intn(3 * 1024 * 1024)
		case 7:
			c.MaxObjectSize = 1020 + r.Intn(8)
		}
	}
	bad = c.Degree < 2 || c.RollAvgSamples < 1 || c.CacheMaxAmount < 0 ||
		c.CacheMaxVolume < 0 ||
		(c.CachePolicy != skyobject.LRU && c.CachePolicy != skyobject.LFU) ||
		c.CacheCleaning < 0.5 || c.CacheCleaning > 0.9 ||
		c.CacheMaxItemSize > int(float64(c.CacheMaxVolume)*(1-c.CacheCleaning)) ||
		c.MaxObjectSize < 1024
	var (
		cas  = fmt.Sprintf("%+v", *c)
		err  = c.Validate()
		nc   = node.NewConfig()
		nerr error
	)
	nc.Config = c
	nerr = nc.Validate()
	k.Case(bad, cas)
	if (err != nil) != bad {
		k.Violate("validate", cas, "error is %v, invalid: %v", err, bad)
	}
	if (nerr != nil) != bad {
		k.Violate("validate-node", cas, "error is %v, invalid: %v", nerr, bad)
	}
	if bad {
		k.Count("rejected", 1)
		return
	}
	k.Count("accepted", 1)
}
