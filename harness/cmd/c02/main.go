// C02: contents of log records.
package main

import (
	"bytes"
	"errors"
	"fmt"
	stdlog "log"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"time"

	"github.com/skycoin/cxo/node/log"

	"verif/kit"
)

func main() {
	if os.Getenv("VERIF_FATAL") != "" {
		fatal()
	}
	kit.Main("C02", kit.Opts{
		Rule: "random calls of every method with hostile arguments (percent " +
			"signs, verbs, newlines, nil, structs, errors, no arguments) and " +
			"random standard flags; the record is compared with what package " +
			"fmt makes of the same arguments, and the source location with the " +
			"place of the call; a case is non-trivial if the message is not blank",
		MinCases: 500,
		Need: []string{"error_records", "debug_records", "locations_checked",
			"fatal_exits", "records_without_error_text", "default_records",
			"arguments_with_more_behind", "reentrant_calls"},
	}, run)
}

var words = []string{"plain", "100%", "%s", "%d%%", "a b", "", "[x]", "\t",
	"multi\nline", "ünïcode", "%!s(MISSING)", "trailing ", " leading", "%v%v",
	"err=", "nil"}

type pair struct {
	A int
	B string
}

func arg(r *rand.Rand) interface{} {
	switch r.Intn(12) {
	case 0:
		return r.Intn(1000)
	case 1:
		return pair{r.Intn(10), words[r.Intn(len(words))]}
	case 2:
		return &pair{1, "p"}
	case 3:
		return errors.New("e" + words[r.Intn(len(words))])
	case 4:
		return nil
	case 5:
		return []string{"a", "b"}
	case 6:
		return 1.5
	case 7:
		return true
	default:
		return words[r.Intn(len(words))]
	}
}

// a caller may keep more behind the arguments it passes
func args(r *rand.Rand) (as, whole []interface{}) {
	var n = r.Intn(5)
	if r.Intn(40) == 0 {
		n = 20 + r.Intn(100)
	}
	for i := n + r.Intn(4); i > 0; i-- {
		whole = append(whole, arg(r))
	}
	return whole[:n], whole
}

// an error with a value that can't be asked for its text
type nilErr struct{ s string }

func (n *nilErr) Error() string { return n.s }

type badErr struct{}

func (badErr) Error() string { panic("no text") }

// a line with exactly one line break in the end, as package log makes it
func line(s string) string {
	if !strings.HasSuffix(s, "\n") {
		s += "\n"
	}
	return s
}

func run(k *kit.K) {
	for i := 0; i < k.N(6000, 300000); i++ {
		one(k, i)
	}
	defaults(k)
	reentrant(k)
	fatals(k)
}

func one(k *kit.K, n int) {
	var (
		r      = k.Rng("one", n)
		buf    bytes.Buffer
		conf   = log.NewConfig()
		flags  = []int{0, 0, stdlog.Lshortfile, stdlog.Llongfile, stdlog.Lshortfile | stdlog.Lmsgprefix}[r.Intn(5)]
		as, wh = args(r)
		format = words[r.Intn(len(words))] + "|%v|" + words[r.Intn(len(words))]
		err    = errors.New("E" + words[r.Intn(len(words))] + words[r.Intn(len(words))])
		noText = false
		kept   = append([]interface{}(nil), wh...)
		kind   string
		want   string
		ln     int
		file   string
	)
	switch r.Intn(12) {
	case 0: // no error: the record is written all the same
		err, noText = nil, true
	case 1:
		err, noText = (*nilErr)(nil), true
	case 2:
		err, noText = badErr{}, true
	}
	conf.Debug = true
	conf.Output = &buf
	conf.Prefix = []string{"", "[p] "}[r.Intn(2)]
	var l = log.NewLogger(conf)
	if n%7 == 0 && flags != 0 {
		flags = stdlog.Lshortfile // default includes it
	} else {
		l.SetFlags(flags)
	}
	var panicked interface{}
	func() {
		defer func() { panicked = recover() }()
		switch r.Intn(12) {
		case 0:
			kind, want = "DBG", fmt.Sprint(as...)
			_, file, ln, _ = runtime.Caller(0)
			l.Debug(1, as...)
		case 1:
			kind, want = "DBG", fmt.Sprintln(as...)
			_, file, ln, _ = runtime.Caller(0)
			l.Debugln(1, as...)
		case 2:
			kind, want = "DBG", fmt.Sprintf(format, as...)
			_, file, ln, _ = runtime.Caller(0)
			l.Debugf(1, format, as...)
		case 3:
			kind, want = "ERR", fmt.Sprint(as...)
			_, file, ln, _ = runtime.Caller(0)
			l.Error(err, as...)
		case 4:
			kind, want = "ERR", fmt.Sprintln(as...)
			_, file, ln, _ = runtime.Caller(0)
			l.Errorln(err, as...)
		case 5:
			kind, want = "ERR", fmt.Sprintf(format, as...)
			_, file, ln, _ = runtime.Caller(0)
			l.Errorf(err, format, as...)
		case 6:
			want = fmt.Sprint(as...)
			_, file, ln, _ = runtime.Caller(0)
			l.Print(as...)
		case 7:
			want = fmt.Sprintln(as...)
			_, file, ln, _ = runtime.Caller(0)
			l.Println(as...)
		case 8:
			want = fmt.Sprintf(format, as...)
			_, file, ln, _ = runtime.Caller(0)
			l.Printf(format, as...)
		case 9:
			kind, want = "panic", fmt.Sprint(as...)
			_, file, ln, _ = runtime.Caller(0)
			l.Panic(as...)
		case 10:
			kind, want = "panic", fmt.Sprintln(as...)
			_, file, ln, _ = runtime.Caller(0)
			l.Panicln(as...)
		case 11:
			kind, want = "panic", fmt.Sprintf(format, as...)
			_, file, ln, _ = runtime.Caller(0)
			l.Panicf(format, as...)
		}
	}()
	ln++ // the call is on the next line
	var (
		rec  = buf.String()
		cas  = fmt.Sprintf("%s flags=%d err=%T %s format=%q args=%#v", kind, flags, err, fmt.Sprint(err), format, as)
		rest = rec
	)
	k.Case(strings.TrimSpace(want) != "", cas)
	if n < 4 {
		k.Sample(cas + " -> " + rec)
	}
	for i := range wh {
		if !same(wh[i], kept[i]) {
			k.Violate("arguments", cas, "the call changed an argument of the "+
				"caller: the %d of %d (%d are passed) is %#v, was %#v", i,
				len(wh), len(as), wh[i], kept[i])
			return
		}
	}
	if len(wh) > len(as) {
		k.Count("arguments_with_more_behind", 1)
	}
	if (panicked != nil) != (kind == "panic") {
		k.Violate("panic", cas, "panicked with %v", panicked)
		return
	}
	if panicked != nil && panicked != want {
		k.Violate("panic", cas, "panic value is %q, want %q", panicked, want)
	}
	if flags&(stdlog.Lshortfile|stdlog.Llongfile) != 0 {
		if flags&stdlog.Lshortfile != 0 {
			file = file[strings.LastIndex(file, "/")+1:]
		}
		var loc = fmt.Sprintf("%s:%d: ", file, ln)
		var i = strings.Index(rest, loc)
		if i < 0 {
			k.Violate("location", cas, "record %q is not of %s", rec, loc)
			return
		}
		rest = rest[i+len(loc):]
		if flags&stdlog.Lmsgprefix != 0 {
			if !strings.HasPrefix(rest, conf.Prefix) {
				k.Violate("prefix", cas, "record %q", rec)
				return
			}
			rest = rest[len(conf.Prefix):]
		} else if !strings.HasPrefix(rec, conf.Prefix) {
			k.Violate("prefix", cas, "record %q", rec)
			return
		}
		k.Count("locations_checked", 1)
	} else {
		if !strings.HasPrefix(rest, conf.Prefix) {
			k.Violate("prefix", cas, "record %q", rec)
			return
		}
		rest = rest[len(conf.Prefix):]
	}
	switch kind {
	case "DBG":
		k.Count("debug_records", 1)
		if !strings.HasPrefix(rest, "[DBG]") {
			k.Violate("mark", cas, "record %q", rec)
			return
		}
		rest = strings.TrimPrefix(strings.TrimPrefix(rest, "[DBG]"), " ")
	case "ERR":
		k.Count("error_records", 1)
		if !strings.HasPrefix(rest, "[ERR]") {
			k.Violate("mark", cas, "record %q", rec)
			return
		}
		rest = strings.TrimPrefix(rest, "[ERR]")
		if noText { // whatever stands for the error, the message is last
			k.Count("records_without_error_text", 1)
			if !strings.HasSuffix(line(rest), line(want)) {
				k.Violate("message", cas, "record %q doesn't end with %q", rec,
					line(want))
			}
			return
		}
		// the text of the error goes first, as is
		var i = strings.Index(rest, err.Error())
		if i < 0 || i > 6 {
			k.Violate("error-text", cas, "record %q has no text of the error",
				rec)
			return
		}
		rest = strings.TrimPrefix(rest[i+len(err.Error()):], " ")
	}
	// what is left is the message
	if line(rest) != line(want) {
		k.Violate("message", cas, "record %q: the message is %q, want %q", rec,
			rest, line(want))
	}
}

func same(a, b interface{}) (ok bool) {
	defer func() {
		if recover() != nil { // not comparable
			ok = fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b)
		}
	}()
	return a == b
}

// a logger right after NewLogger: prefix, local time, short file and line
func defaults(k *kit.K) {
	var was = time.Local
	defer func() { time.Local = was }()
	for i := 0; i < k.N(40, 400); i++ {
		var (
			buf  bytes.Buffer
			conf = log.NewConfig()
			file string
			ln   int
		)
		time.Local = time.FixedZone("X", 60*(i*37%(24*60)-12*60))
		conf.Output, conf.Debug = &buf, true
		conf.Prefix = []string{"", "[p] "}[i%2]
		var l = log.NewLogger(conf)
		var a = time.Now()
		switch i % 3 {
		case 0:
			_, file, ln, _ = runtime.Caller(0)
			l.Print("msg")
		case 1:
			_, file, ln, _ = runtime.Caller(0)
			l.Debug(1, "msg")
		case 2:
			_, file, ln, _ = runtime.Caller(0)
			l.Errorf(errors.New("e"), "msg")
		}
		var b = time.Now()
		var (
			loc = fmt.Sprintf(" %s:%d: ", file[strings.LastIndex(file, "/")+1:], ln+1)
			ok  bool
		)
		for t := a.Add(-time.Second); !t.After(b.Add(time.Second)); t = t.Add(time.Second) {
			ok = ok || strings.HasPrefix(buf.String(),
				conf.Prefix+t.In(time.Local).Format("15:04:05")+loc)
		}
		k.Case(true, fmt.Sprint("default flags ", i))
		k.Count("default_records", 1)
		if !ok || !strings.HasSuffix(buf.String(), "msg\n") {
			k.Violate("default-flags", fmt.Sprint("NewLogger, zone ", time.Local),
				"record %q, want it with the prefix, the time (%s) and%s",
				buf.String(), a.In(time.Local).Format("15:04:05"), loc)
			return
		}
	}
}

// arguments and errors that use the logger themselves, and sink that fails
type talker struct {
	l log.Logger
	s string
}

func (t talker) String() string { t.l.Print("inner ", t.s); return t.s }
func (t talker) Error() string  { t.l.Print("inner ", t.s); return t.s }

type flaky struct {
	bytes.Buffer
	n int
}

func (f *flaky) Write(p []byte) (int, error) {
	if f.n++; f.n%3 == 0 {
		return 0, errors.New("no space")
	}
	return f.Buffer.Write(p)
}

func reentrant(k *kit.K) {
	for i := 0; i < 9; i++ {
		var (
			buf  bytes.Buffer
			conf = log.NewConfig()
		)
		conf.Output, conf.Debug = &buf, true
		var l = log.NewLogger(conf)
		l.SetFlags(0)
		var t = talker{l, "T"}
		var done = make(chan struct{})
		go func() {
			defer close(done)
			switch i {
			case 0:
				l.Debug(1, t)
			case 1:
				l.Debugln(1, t)
			case 2:
				l.Debugf(1, "%s", t)
			case 3:
				l.Error(t, "")
			case 4:
				l.Errorln(t)
			case 5:
				l.Errorf(t, "")
			case 6:
				l.Print(t)
			case 7:
				l.Println(t)
			case 8:
				l.Printf("%s", t)
			}
		}()
		var cas = fmt.Sprint("an argument that logs, method ", i)
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			k.Violate("stuck", cas, "the call doesn't return")
			return
		}
		k.Case(true, cas)
		k.Count("reentrant_calls", 1)
		var ls = strings.Split(strings.TrimSuffix(buf.String(), "\n"), "\n")
		if len(ls) != 2 || ls[0] != "inner T" || !strings.HasSuffix(strings.TrimRight(ls[1], " "), "T") {
			k.Violate("reentrant", cas, "records %q", ls)
		}
	}
	var (
		f    flaky
		conf = log.NewConfig()
	)
	conf.Output, conf.Debug = &f, true
	var l = log.NewLogger(conf)
	l.SetFlags(0)
	for i := 0; i < 30; i++ {
		switch i % 5 {
		case 0:
			l.Print(i)
		case 1:
			l.Debug(1, i)
		case 2:
			l.Error(errors.New("e"), i)
		case 3:
			l.Debugf(1, "%d", i)
		case 4:
			l.Errorln(errors.New("e"), i)
		}
	}
	k.Case(true, "a sink that fails")
	if f.n != 30 || strings.Count(f.String(), "\n") != 20 {
		k.Violate("sink-fails", "30 records", "%d writes, written %q", f.n,
			f.String())
	}
}

// Fatal methods write the record and end the process
func fatal() {
	var conf = log.NewConfig()
	conf.Output = os.Stdout
	var mode = os.Getenv("VERIF_FATAL")
	if len(mode) > 1 { // no output given: the standard error
		conf.Output = nil
		mode = mode[1:]
	}
	var l = log.NewLogger(conf)
	l.SetFlags(0)
	switch mode {
	case "0":
		l.Fatal("bye ", "100%")
	case "1":
		l.Fatalln("bye", "100%")
	case "2":
		l.Fatalf("bye %s", "100%")
	}
	os.Exit(99)
}

func fatals(k *kit.K) {
	for i := 0; i < 6; i++ {
		var cmd = exec.Command(os.Args[0])
		var mode = fmt.Sprint(i)
		if i > 2 {
			mode = "e" + fmt.Sprint(i-3)
		}
		cmd.Env = append(os.Environ(), "VERIF_FATAL="+mode)
		var out, err = cmd.Output()
		if ee, ok := err.(*exec.ExitError); ok && i > 2 {
			if len(out) != 0 {
				k.Violate("fatal", fmt.Sprint("Fatal variant ", i),
					"standard output %q", out)
			}
			out = ee.Stderr
		}
		var ee, ok = err.(*exec.ExitError)
		if !ok || ee.ExitCode() != 1 || string(out) != "bye 100%\n" {
			k.Violate("fatal", fmt.Sprint("Fatal variant ", i),
				"output %q, exit %v", out, err)
		}
		k.Count("fatal_exits", 1)
		k.Case(true, fmt.Sprint("fatal", i))
	}
}
