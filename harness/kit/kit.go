// Package kit is the runtime every check of /verif is built on: it runs the
// workload in a child process, collects what the monitors observed, decides
// the verdict and writes the evidence file.
package kit

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Opts of a check
type Opts struct {
	Rule   string // how cases are made and what is non-trivial
	Level  string // exploration by default
	Assume []string
	// MinCases is the least number of distinct non-trivial cases;
	// a run that observed less is inconclusive (exit 3)
	MinCases int
	// Need are counters that must not be zero
	Need []string
	// Watchdog kills a run that takes too long
	Watchdog time.Duration
}

// K is a running check
type K struct {
	ID   string
	Tier string
	Seed int64

	o     Opts
	start time.Time

	mx       sync.Mutex
	evals    int
	distinct map[uint64]struct{}
	samples  []interface{}
	counters map[string]int
	viols    []Violation
	keys     map[string]int
	known    map[string]string // key -> description
	seen     map[string]bool   // known findings seen
	progress time.Time
	limit    time.Duration // of the run, the VERIF_SECONDS
}

// A Violation that a monitor found
type Violation struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
	Case   string `json:"case,omitempty"`
}

// Root is /verif
func Root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// Thorough tier
func (k *K) Thorough() bool { return k.Tier == "thorough" }

// N returns q or t by the tier
func (k *K) N(q, t int) int {
	if k.Thorough() {
		return t
	}
	return q
}

// Rng returns generator for given case
func (k *K) Rng(parts ...interface{}) *rand.Rand {
	var h = fnv.New64a()
	fmt.Fprint(h, k.Seed, "/", k.ID, "/", fmt.Sprint(parts...))
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Case counts an execution
func (k *K) Case(nontrivial bool, sig string) {
	var h = fnv.New64a()
	h.Write([]byte(sig))
	k.mx.Lock()
	defer k.mx.Unlock()
	k.evals++
	k.progress = time.Now()
	if nontrivial {
		k.distinct[h.Sum64()] = struct{}{}
	}
}

// Count events
func (k *K) Count(name string, n int) {
	k.mx.Lock()
	defer k.mx.Unlock()
	k.counters[name] += n
	k.progress = time.Now()
}

// Sample keeps a few samples
func (k *K) Sample(v interface{}) {
	k.mx.Lock()
	defer k.mx.Unlock()
	if len(k.samples) < 6 {
		if s, ok := v.(string); ok && len(s) > 1500 {
			v = s[:1500] + "..."
		}
		k.samples = append(k.samples, v)
	}
}

// Violate reports a violation; the key identifies what fails
func (k *K) Violate(key, cas, format string, args ...interface{}) {
	var d = fmt.Sprintf(format, args...)
	if len(d) > 8000 {
		d = d[:8000] + "..."
	}
	k.mx.Lock()
	defer k.mx.Unlock()
	if _, ok := k.known[key]; ok {
		k.seen[key] = true
		return
	}
	k.keys[key]++
	if k.keys[key] <= 3 && len(k.viols) < 30 {
		k.viols = append(k.viols, Violation{key, d, cas})
		return
	}
	for i, v := range k.viols { // prefer short ones
		if v.Key == key && len(cas) > 0 && len(cas) < len(v.Case) {
			k.viols[i] = Violation{key, d, cas}
			return
		}
	}
}

// Violated returns true if there is a violation with given key
func (k *K) Violated(key string) bool {
	k.mx.Lock()
	defer k.mx.Unlock()
	return k.keys[key] > 0
}

// Bad returns number of violations; it's huge if the time of the run is over
func (k *K) Bad() (n int) {
	k.mx.Lock()
	defer k.mx.Unlock()
	if k.limit > 0 && time.Since(k.start) > k.limit {
		return 1 << 30
	}
	for _, c := range k.keys {
		n += c
	}
	return
}

// Guard runs f turning a panic to violation
func (k *K) Guard(key, cas string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			var buf = make([]byte, 16384)
			buf = buf[:runtime.Stack(buf, false)]
			k.Violate(key, cas, "panic: %v\n%s", e, buf)
			ok = false
		}
	}()
	f()
	return true
}

// Within runs f, if it hangs, then the check is finished with violation
func (k *K) Within(key, cas string, d time.Duration, f func()) {
	var done = make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
	case <-time.After(d):
		var a = stacks()
		select {
		case <-done:
			return
		case <-time.After(d / 2):
		}
		k.Violate(key, cas, "does not return (deadlock or livelock); "+
			"goroutines:\n%s", relevant(a))
		k.finish()
	}
}

func stacks() string {
	var buf = make([]byte, 4<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// Stacks of all goroutines
func Stacks() string { return stacks() }

func relevant(s string) string {
	var out []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "skycoin/cxo") && !strings.Contains(g, "secondLoop") {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}

// Main runs the check
func Main(id string, o Opts, f func(k *K)) {
	if os.Getenv("VERIF_CHILD") == "" {
		os.Exit(parent(id, o))
	}
	var k = newK(id, o)
	go k.watch()
	f(k)
	k.finish()
}

func newK(id string, o Opts) (k *K) {
	k = new(K)
	k.ID = id
	k.o = o
	if k.o.Level == "" {
		k.o.Level = "exploration"
	}
	if k.o.Watchdog == 0 {
		k.o.Watchdog = 800 * time.Second
	}
	k.Tier = os.Getenv("VERIF_TIER")
	if k.Tier != "thorough" {
		k.Tier = "quick"
	} else if k.o.Watchdog < 4*time.Hour {
		k.o.Watchdog = 4 * time.Hour
	}
	k.Seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		k.Seed = s
	}
	k.start = time.Now()
	k.progress = k.start
	if s, err := strconv.Atoi(os.Getenv("VERIF_SECONDS")); err == nil {
		k.limit = time.Duration(s) * time.Second
	}
	k.distinct = make(map[uint64]struct{})
	k.counters = make(map[string]int)
	k.keys = make(map[string]int)
	k.seen = make(map[string]bool)
	k.known = loadKnown(id)
	return
}

func (k *K) watch() {
	for {
		time.Sleep(time.Second)
		if time.Since(k.start) > k.o.Watchdog {
			fmt.Fprintf(os.Stderr, "watchdog: inconclusive\n%s\n",
				relevant(stacks()))
			if k.Bad() > 0 {
				k.finish()
			}
			os.Exit(4)
		}
	}
}

var knownRe = regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)

func loadKnown(id string) (m map[string]string) {
	m = make(map[string]string)
	var fl, err = os.Open(filepath.Join(Root(), "known_findings.txt"))
	if err != nil {
		return
	}
	defer fl.Close()
	var sc = bufio.NewScanner(fl)
	for sc.Scan() {
		var ss = knownRe.FindStringSubmatch(sc.Text())
		if len(ss) == 4 && ss[1] == id {
			m[ss[2]] = ss[3]
		}
	}
	return
}

type evidence struct {
	Property   string                 `json:"property"`
	Tier       string                 `json:"tier"`
	Seed       int64                  `json:"seed"`
	Level      string                 `json:"level"`
	Coverage   map[string]interface{} `json:"coverage"`
	Assume     []string               `json:"assumptions,omitempty"`
	WallS      float64                `json:"wall_s"`
	Violations int                    `json:"violations"`
}

// finish writes evidence and exits
func (k *K) finish() {
	k.mx.Lock() // never unlocked
	var cov = map[string]interface{}{
		"evaluations":         k.evals,
		"distinct_nontrivial": len(k.distinct),
		"rule":                k.o.Rule,
		"samples":             k.samples,
	}
	if k.samples == nil {
		cov["samples"] = []interface{}{}
	}
	for n, c := range k.counters {
		cov["observed_"+n] = c
	}
	var total int
	for _, n := range k.keys {
		total += n
	}
	var ev = evidence{k.ID, k.Tier, k.Seed, k.o.Level, cov, k.o.Assume,
		time.Since(k.start).Seconds(), total}
	writeEvidence(ev)
	for key, d := range k.known {
		var s = "listed"
		if k.seen[key] {
			s = "observed"
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", k.ID, key, d, s)
	}
	var names []string
	for n := range k.counters {
		names = append(names, n)
	}
	sort.Strings(names)
	fmt.Printf("%s: %d executions, %d distinct non-trivial, %.1fs\n",
		k.ID, k.evals, len(k.distinct), ev.WallS)
	for _, n := range names {
		fmt.Printf("  %s: %d\n", n, k.counters[n])
	}
	if total > 0 {
		report(k.ID, k.Tier, k.Seed, k.viols)
		os.Exit(1)
	}
	if len(k.distinct) < k.o.MinCases {
		fmt.Printf("inconclusive: %d cases observed, %d needed\n",
			len(k.distinct), k.o.MinCases)
		os.Exit(3)
	}
	for _, n := range k.o.Need {
		if k.counters[n] == 0 {
			fmt.Printf("inconclusive: %q never observed\n", n)
			os.Exit(3)
		}
	}
	os.Exit(0)
}

func writeEvidence(ev evidence) {
	var p = filepath.Join(Root(), "evidence")
	os.MkdirAll(p, 0755)
	var b, err = json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(5)
	}
	if err = os.WriteFile(filepath.Join(p, ev.Property+".json"),
		append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(5)
	}
}

func report(id, tier string, seed int64, vs []Violation) {
	var p = filepath.Join(Root(), "evidence", "replay")
	os.MkdirAll(p, 0755)
	p = filepath.Join(p, id+".json")
	var b, _ = json.MarshalIndent(map[string]interface{}{
		"property":   id,
		"command":    fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash check.sh %s", seed, tier, id),
		"violations": vs,
	}, "", " ")
	os.WriteFile(p, append(b, '\n'), 0644)
	for i, v := range vs {
		var d, c = v.Detail, v.Case
		if len(d) > 600 {
			d = d[:600] + "..."
		}
		if len(c) > 1500 {
			c = "..." + c[len(c)-1500:]
		}
		if d += "\n  case: " + c; c == "" {
			d = d[:len(d)-len("\n  case: ")]
		}
		if i < 8 {
			fmt.Printf("- [%s] %s\n", v.Key, d)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
}

// parent runs the child and judges how it ended
func parent(id string, o Opts) int {
	var k = newK(id, o)
	var tmp, err = os.MkdirTemp("/dev/shm", "verif-"+id+"-")
	if err != nil {
		tmp, err = os.MkdirTemp("", "verif-"+id+"-")
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 5
	}
	defer os.RemoveAll(tmp)
	os.Remove(filepath.Join(Root(), "evidence", id+".json"))
	var cmd = exec.Command(os.Args[0], os.Args[1:]...)
	var errb tail
	cmd.Env = append(os.Environ(), "VERIF_CHILD=1", "TMPDIR="+tmp,
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+tmp+"/race",
		"GOTRACEBACK=all")
	cmd.Stdout = os.Stdout
	cmd.Stderr = &errb
	err = cmd.Run()
	var code = 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	var races = collectRaces(tmp, k)
	if _, err := os.Stat(filepath.Join(Root(), "evidence", id+".json")); err != nil && (code == 0 || code == 1) {
		// it's not the end of the check, the code under test called os.Exit
		var s = errb.String()
		if i := strings.LastIndex(s, "FATAL: "); i >= 0 {
			s = s[i:]
		} else if len(s) > 4000 {
			s = s[len(s)-4000:]
		}
		var d = fmt.Sprintf("the code under test ended the process with code %d\n%s", code, s)
		k.viols = append(k.viols, Violation{"exit", d, ""})
		writeEvidence(evidence{id, k.Tier, k.Seed, k.o.Level, map[string]interface{}{"evaluations": 1,
			"distinct_nontrivial": 1, "rule": o.Rule, "samples": []interface{}{d}}, o.Assume, time.Since(k.start).Seconds(), 1})
		report(id, k.Tier, k.Seed, k.viols)
		return 1
	}
	if code == 0 || code == 1 || code == 3 && len(races) > 0 {
		if len(races) > 0 {
			var rest []Violation
			for _, v := range races {
				if _, ok := k.known[v.Key]; !ok {
					rest = append(rest, v)
				}
			}
			if len(rest) > 0 {
				report(id, k.Tier, k.Seed, rest)
				bump(id, len(rest))
				return 1
			}
		}
		return code
	}
	var s = errb.String()
	if code == 2 && (strings.Contains(s, "panic: ") ||
		strings.Contains(s, "fatal error: ")) && crashInCXO(s) {
		var key = "crash"
		if _, ok := k.known[key]; !ok {
			k.viols = append(k.viols, Violation{key,
				"the process crashed: " + crashText(s), ""})
			ev := evidence{id, k.Tier, k.Seed, k.o.Level,
				map[string]interface{}{"evaluations": 1,
					"distinct_nontrivial": 1, "rule": o.Rule,
					"samples": []interface{}{crashText(s)}},
				o.Assume, time.Since(k.start).Seconds(), 1}
			writeEvidence(ev)
			report(id, k.Tier, k.Seed, k.viols)
			return 1
		}
	}
	os.Stderr.WriteString(s)
	fmt.Fprintf(os.Stderr, "%s: child ended with code %d: %v\n", id, code, err)
	if code <= 1 {
		code = 6
	}
	return code
}

func bump(id string, n int) {
	var p = filepath.Join(Root(), "evidence", id+".json")
	var b, err = os.ReadFile(p)
	if err != nil {
		return
	}
	var ev evidence
	if json.Unmarshal(b, &ev) == nil {
		ev.Violations += n
		writeEvidence(ev)
	}
}

// the crash is a violation if the code under test is what crashed: the first
// goroutine of the trace has its frames
func crashInCXO(s string) bool {
	var i = strings.Index(s, "panic: ")
	if j := strings.Index(s, "fatal error: "); i < 0 || (j >= 0 && j < i) {
		i = j
	}
	var t = s[i:]
	if strings.HasPrefix(t, "fatal error: all goroutines are asleep") {
		return strings.Contains(t, "github.com/skycoin/cxo/")
	}
	for i, g := range strings.Split(t, "\n\n") {
		if i > 0 && strings.HasPrefix(g, "goroutine ") { // not "runtime stack"
			return strings.Contains(g, "github.com/skycoin/cxo/")
		}
	}
	return false
}

func crashText(s string) string {
	var i = strings.Index(s, "panic: ")
	if j := strings.Index(s, "fatal error: "); i < 0 || (j >= 0 && j < i) {
		i = j
	}
	s = s[i:]
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

var frameRe = regexp.MustCompile(`(?m)^  (github\.com/skycoin/cxo/[^\s]+)\(`)

// the function that accesses the memory
var topRe = regexp.MustCompile(`(?m)^  ([^\s]+)\(\)$`)

func library(f string) bool {
	var i = strings.IndexByte(f, '/')
	return strings.HasPrefix(f, "internal/") || i < 0 && !strings.HasPrefix(f, "main.") || i > 0 && f[:i] == "sync"
}

func harness(f string) bool {
	return strings.HasPrefix(f, "main.") || strings.HasPrefix(f, "verif/")
}

func collectRaces(dir string, k *K) (vs []Violation) {
	var fls, _ = filepath.Glob(filepath.Join(dir, "race*"))
	var have = map[string]bool{}
	for _, f := range fls {
		var b, err = os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			// the two accesses
			var parts = strings.Split(blk, "\n\n")
			var fs []string
			var own int
			for _, p := range parts {
				if strings.Contains(p, " by goroutine ") ||
					strings.Contains(p, " by main goroutine") {
					// what is between two pieces of the harness only
					// is the harness's own
					for _, t := range topRe.FindAllStringSubmatch(p, -1) {
						if library(t[1]) {
							continue
						}
						if harness(t[1]) {
							own++
						}
						break
					}
					if m := frameRe.FindStringSubmatch(p); m != nil {
						fs = append(fs, m[1])
					}
				}
			}
			if own > 1 {
				fs = nil
			}
			if len(fs) < 1 {
				if !have["outside"] {
					have["outside"] = true
					fmt.Fprintln(os.Stderr, "race outside of cxo ignored:", blk)
				}
				continue
			}
			sort.Strings(fs)
			var key = "race:" + strings.Join(fs, "|")
			if have[key] {
				continue
			}
			have[key] = true
			if len(vs) < 10 {
				vs = append(vs, Violation{key, blk, ""})
			}
		}
	}
	return
}

// tail keeps the first and the last of the output
type tail struct {
	mx   sync.Mutex
	head bytes.Buffer
	last []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mx.Lock()
	defer t.mx.Unlock()
	if t.head.Len() < 1<<20 {
		t.head.Write(p)
	} else {
		t.last = append(t.last, p...)
		if len(t.last) > 2<<20 {
			t.last = t.last[len(t.last)-(1<<20):]
		}
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mx.Lock()
	defer t.mx.Unlock()
	return t.head.String() + string(t.last)
}
