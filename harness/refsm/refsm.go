// Package refsm has a model of registry.Refs: a slice of hashes. An L is
// a Refs with its model, every operation of the L is performed on both and
// the replies are compared.
package refsm

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"

	"verif/regm"

	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

// H is hash
type H = cipher.SHA256

// Obj is an element
type Obj struct {
	N uint64
	S string
}

// E is an episode: a Pack, pool of elements and lists
type E struct {
	R    *rand.Rand
	P    *regm.Pack
	Pool []H            // hashes to use
	Objs map[H]Obj      // objects behind the hashes
	Hist []string       // what has been done
	Ls   []*L           // lists
	Save map[H]saved    // what is stored under a hash
	N    map[string]int // events

	fail *Fail
	// iterations
	level int
}

type saved struct {
	list []H
	deg  registry.Degree
}

// Fail describes a disagreement
type Fail struct {
	Key, Detail string
}

// NewE creates an episode
func NewE(r *rand.Rand, pool int) (e *E) {
	e = &E{R: r, P: regm.NewPack(registry.NewRegistry(func(t *registry.Reg) {
		t.Register("refsm.Obj", Obj{})
	})), Objs: make(map[H]Obj), Save: make(map[H]saved), N: make(map[string]int)}
	for i := 0; i < pool; i++ {
		var o = Obj{uint64(i), strings.Repeat("x", r.Intn(5))}
		var h, _ = e.P.Add(regm.Enc(&o))
		e.Pool = append(e.Pool, h)
		e.Objs[h] = o
	}
	e.SetPack()
	return
}

// SetPack chooses degree and flags of the Pack
func (e *E) SetPack() {
	e.P.Deg = []registry.Degree{2, 2, 3, 3, 4, 5, 7, 16, 1024}[e.R.Intn(9)]
	e.P.Fl = registry.Flags(e.R.Intn(8))
	if e.R.Intn(2) == 0 {
		e.P.Fl &^= registry.LazyUpdating
	}
}

// Failed returns the disagreement if any
func (e *E) Failed() *Fail { return e.fail }

// Failf reports a disagreement
func (e *E) Failf(key, format string, args ...interface{}) {
	if e.fail == nil {
		e.fail = &Fail{key, fmt.Sprintf(format, args...)}
	}
}

// Guard turns a panic to the failure
func (e *E) Guard(f func()) {
	defer func() {
		if x := recover(); x != nil {
			var b = make([]byte, 4096)
			e.fail = nil
			e.Failf("panic", "panic: %v\n%s", x, b[:runtime.Stack(b, false)])
		}
	}()
	f()
}

// Log what is going to be done
func (e *E) Log(format string, args ...interface{}) {
	e.Hist = append(e.Hist, strings.Repeat("  ", e.level)+fmt.Sprintf(format, args...))
}

// Case is history of the episode
func (e *E) Case() string { return strings.Join(e.Hist, "\n") }

// Hash picks a hash
func (e *E) Hash() (h H) {
	if e.R.Intn(10) == 0 {
		return // blank
	}
	return e.Pool[e.R.Intn(len(e.Pool))]
}

// Hashes picks many
func (e *E) Hashes(n int) (hs []H) {
	for i := 0; i < n; i++ {
		hs = append(hs, e.Hash())
	}
	return
}

// L is a list
type L struct {
	E    *E
	Name string
	R    *registry.Refs
	M    []H

	Init  bool // initialized
	Deg   registry.Degree
	Fl    registry.Flags
	Stale bool // the hash can be stale
	Fresh bool // only appends, the form is canonical
}

// New blank list
func (e *E) New() (l *L) {
	l = &L{E: e, Name: fmt.Sprint("L", len(e.Ls)), R: new(registry.Refs), Fresh: true}
	e.Ls = append(e.Ls, l)
	e.Log("%s = new", l.Name)
	return
}

func s(h H) string { return h.Hex()[:4] }

func ss(hs []H) string {
	var b []string
	for i, h := range hs {
		if i > 40 {
			b = append(b, fmt.Sprintf("...(%d)", len(hs)))
			break
		}
		b = append(b, s(h))
	}
	return "[" + strings.Join(b, " ") + "]"
}

// init is called before an operation that initializes the Refs
func (l *L) init() {
	if l.Init {
		return
	}
	l.Init = true
	l.Fl = l.E.P.Fl
	if len(l.M) == 0 {
		l.Deg = l.E.P.Deg
	}
	l.E.Log("   (%s init flags:%d degree:%d)", l.Name, l.Fl, l.Deg)
}

func (l *L) lazy() bool { return l.Fl&registry.LazyUpdating != 0 }

// changed must be called after a modification
func (l *L) changed(actual bool) {
	if l.lazy() && !actual {
		l.Stale = true
		return
	}
	if !l.Stale || actual {
		l.Stale = false
		l.remember()
	}
}

func (l *L) remember() {
	if len(l.M) == 0 {
		if l.R.Hash != (H{}) {
			l.E.Failf("hash", "%s is empty, its hash is %s", l.Name, l.R.Hash.Hex())
		}
		return
	}
	if l.R.Hash == (H{}) {
		l.E.Failf("hash", "%s has %d elements and blank hash", l.Name, len(l.M))
		return
	}
	if x, ok := l.E.Save[l.R.Hash]; ok {
		if ss(x.list) != ss(l.M) || x.deg != l.Deg {
			l.E.Failf("hash", "the same hash %s of %s (degree %d) and %s (degree %d)", s(l.R.Hash), ss(x.list), x.deg, ss(l.M), l.Deg)
		}
	}
	l.E.Save[l.R.Hash] = saved{append([]H(nil), l.M...), l.Deg}
}

func (l *L) err(what string, err, want error) bool {
	if err != want {
		l.E.Failf("error", "%s: %s returned error %v, want %v", l.Name, what, err, want)
		return false
	}
	return err == nil
}

func eq(a, b []H) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Check the whole list through one of the ways to read it
func (l *L) Check(what string) {
	if l.E.fail != nil {
		return
	}
	l.init()
	var p = l.E.P
	if n, err := l.R.Len(p); err != nil || n != len(l.M) {
		l.E.Failf("length", "%s after %s: length is %d (error %v), want %d: %s", l.Name, what, n, err, len(l.M), ss(l.M))
		return
	}
	if d, err := l.R.Degree(p); err != nil || d != l.Deg {
		l.E.Failf("degree", "%s after %s: degree is %d (error %v), want %d", l.Name, what, d, err, l.Deg)
	}
	if f := l.R.Flags(); f != l.Fl {
		l.E.Failf("flags", "%s after %s: flags are %d, want %d", l.Name, what, f, l.Fl)
	}
	var got []H
	switch l.E.R.Intn(3) {
	case 0:
		for i := range l.M {
			var h, err = l.R.HashByIndex(p, i)
			if err != nil {
				l.E.Failf("content", "%s after %s: HashByIndex(%d): %v, want %s", l.Name, what, i, err, ss(l.M))
				return
			}
			got = append(got, h)
		}
	case 1:
		var err = l.R.Ascend(p, func(i int, h H) error {
			if i != len(got) {
				l.E.Failf("index", "%s after %s: Ascend calls with index %d, want %d", l.Name, what, i, len(got))
			}
			got = append(got, h)
			return nil
		})
		if err != nil {
			l.E.Failf("content", "%s after %s: Ascend: %v", l.Name, what, err)
		}
	case 2:
		got = make([]H, len(l.M))
		var n = len(l.M)
		var err = l.R.Descend(p, func(i int, h H) error {
			n--
			if i != n || i < 0 || i >= len(got) {
				l.E.Failf("index", "%s after %s: Descend calls with index %d, want %d", l.Name, what, i, n)
			} else {
				got[i] = h
			}
			return nil
		})
		if err != nil || n != 0 {
			l.E.Failf("content", "%s after %s: Descend: %v, %d elements are not visited", l.Name, what, err, n)
		}
	}
	if !eq(got, l.M) {
		l.E.Failf("content", "%s after %s: list is %s, want %s", l.Name, what, ss(got), ss(l.M))
	}
	l.E.N["checks"]++
}

// CheckStored loads the list by its hash and compares
func (l *L) CheckStored() {
	if l.E.fail != nil || l.Stale {
		return
	}
	if l.E.P.BadSet {
		l.E.Failf("set", "%s: an object is stored with hash of another one", l.Name)
	}
	if l.R.Hash == (H{}) {
		if len(l.M) != 0 {
			l.E.Failf("stored", "%s has blank hash but it is not blank: %s", l.Name, ss(l.M))
		}
		return
	}
	var got, deg, err = l.E.parse(l.R.Hash)
	if err != nil {
		l.E.Failf("stored", "%s (%s): stored tree: %v", l.Name, ss(l.M), err)
		return
	}
	if !eq(got, l.M) || deg != l.Deg {
		l.E.Failf("stored", "%s: stored tree has %s (degree %d), want %s (degree %d)", l.Name, ss(got), deg, ss(l.M), l.Deg)
		return
	}
	var x = registry.Refs{Hash: l.R.Hash}
	var fl = l.E.P.Fl
	l.E.P.Fl = registry.Flags(l.E.R.Intn(8))
	defer func() { l.E.P.Fl = fl }()
	var list []H
	if err = x.Ascend(l.E.P, func(_ int, h H) error { list = append(list, h); return nil }); err != nil {
		l.E.Failf("stored", "%s: loading by hash: %v", l.Name, err)
	} else if !eq(list, l.M) {
		l.E.Failf("stored", "%s: loaded by hash %s, want %s", l.Name, ss(list), ss(l.M))
	}
	l.E.N["reloads"]++
}

type encRefs struct {
	Depth, Degree, Length uint32
	Elements              []H
}

type encNode struct {
	Length   uint32
	Elements []H
}

func elems(b []byte) (hs []H, err error) {
	if len(b) < 4 {
		return nil, fmt.Errorf("short")
	}
	var n = int(binary.LittleEndian.Uint32(b))
	if b = b[4:]; len(b) != n*32 {
		return nil, fmt.Errorf("%d elements in %d bytes", n, len(b))
	}
	for ; len(b) > 0; b = b[32:] {
		var h H
		copy(h[:], b)
		hs = append(hs, h)
	}
	return
}

// parse stored tree without the code that is checked
func (e *E) parse(h H) (list []H, deg registry.Degree, err error) {
	var v, ok = e.P.M[h]
	if !ok {
		return nil, 0, fmt.Errorf("root of the tree is not stored")
	}
	if len(v) < 16 {
		return nil, 0, fmt.Errorf("short")
	}
	var dep, dg, ln = binary.LittleEndian.Uint32(v), binary.LittleEndian.Uint32(v[4:]), binary.LittleEndian.Uint32(v[8:])
	var els []H
	if els, err = elems(v[12:]); err != nil {
		return
	}
	if dep > 40 || len(els) > int(dg) {
		return nil, 0, fmt.Errorf("depth %d, degree %d, %d elements", dep, dg, len(els))
	}
	list, err = e.parseNode(els, int(dep), int(dg))
	if err == nil && len(list) != int(ln) {
		err = fmt.Errorf("length of the tree is %d, it has %d elements", ln, len(list))
	}
	return list, registry.Degree(dg), err
}

func (e *E) parseNode(els []H, dep, deg int) (list []H, err error) {
	if dep == 0 {
		return els, nil
	}
	for _, h := range els {
		var v, ok = e.P.M[h]
		if !ok {
			return nil, fmt.Errorf("node %s is not stored", h.Hex())
		}
		if len(v) < 8 {
			return nil, fmt.Errorf("short")
		}
		var ln = binary.LittleEndian.Uint32(v)
		var sub, l []H
		if sub, err = elems(v[4:]); err != nil {
			return
		}
		if len(sub) > deg {
			return nil, fmt.Errorf("%d elements of a node, degree is %d", len(sub), deg)
		}
		if l, err = e.parseNode(sub, dep-1, deg); err != nil {
			return
		}
		if len(l) != int(ln) {
			return nil, fmt.Errorf("length of a node is %d, it has %d elements", ln, len(l))
		}
		list = append(list, l...)
	}
	return
}

//
// operations
//

// Append hashes
func (l *L) Append(hs []H) {
	l.E.Log("%s.AppendHashes(%s)", l.Name, ss(hs))
	if len(hs) > 0 {
		l.init()
	}
	if l.err("AppendHashes", l.R.AppendHashes(l.E.P, hs...), nil) {
		l.M = append(l.M, hs...)
		if len(hs) > 0 {
			l.changed(false)
		}
		l.E.N["append_hashes"]++
	}
}

// AppendValues appends values
func (l *L) AppendValues(hs []H) {
	l.E.Log("%s.AppendValues(%s)", l.Name, ss(hs))
	if len(hs) > 0 {
		l.init()
	}
	var vs []interface{}
	for _, h := range hs {
		if h == (H{}) {
			if l.E.R.Intn(2) == 0 {
				vs = append(vs, nil)
			} else {
				vs = append(vs, (*Obj)(nil))
			}
			continue
		}
		var o = l.E.Objs[h]
		vs = append(vs, &o)
	}
	if l.err("AppendValues", l.R.AppendValues(l.E.P, vs...), nil) {
		l.M = append(l.M, hs...)
		if len(hs) > 0 {
			l.changed(false)
		}
		l.E.N["append_values"]++
	}
}

// AppendRefs appends another list
func (l *L) AppendRefs(o *L) {
	l.E.Log("%s.Append(%s)", l.Name, o.Name)
	l.init()
	o.init()
	if l.err("Append", l.R.Append(l.E.P, o.R), nil) {
		l.M = append(l.M, o.M...)
		if len(o.M) > 0 {
			l.changed(false)
		}
		o.Check("being appended")
		l.E.N["append_refs"]++
	}
}

// Idx picks an index, sometimes it is out of range
func (l *L) Idx() int {
	switch x := l.E.R.Intn(30); {
	case x == 0:
		return -1
	case x == 1:
		return len(l.M)
	case x == 2:
		return len(l.M) + l.E.R.Intn(5)
	case x == 3:
		return -l.E.R.Intn(100)
	case x < 8:
		return len(l.M) - 1
	case x < 12:
		return 0
	}
	if len(l.M) == 0 {
		return 0
	}
	return l.E.R.Intn(len(l.M))
}

func (l *L) idxErr(i int) error {
	if i < 0 || i >= len(l.M) {
		return registry.ErrIndexOutOfRange
	}
	return nil
}

// Get by index
func (l *L) Get(i int) {
	l.E.Log("%s.HashByIndex(%d)", l.Name, i)
	l.init()
	var h, err = l.R.HashByIndex(l.E.P, i)
	if l.err(fmt.Sprintf("HashByIndex(%d)", i), err, l.idxErr(i)) && h != l.M[i] {
		l.E.Failf("content", "%s: HashByIndex(%d) is %s, want %s of %s", l.Name, i, s(h), s(l.M[i]), ss(l.M))
	}
	var o Obj
	h, err = l.R.ValueByIndex(l.E.P, i, &o)
	var want = l.idxErr(i)
	if want == nil && l.M[i] == (H{}) {
		want = registry.ErrRefsElementIsNil
	}
	if l.err(fmt.Sprintf("ValueByIndex(%d)", i), err, want) && (h != l.M[i] || o != l.E.Objs[h]) {
		l.E.Failf("content", "%s: ValueByIndex(%d) is %s %v, want %s", l.Name, i, s(h), o, s(l.M[i]))
	}
	l.E.N["get"]++
}

// Set by index
func (l *L) Set(i int, h H) {
	l.E.Log("%s.SetHashByIndex(%d, %s)", l.Name, i, s(h))
	l.init()
	var err error
	if l.E.R.Intn(2) == 0 {
		err = l.R.SetHashByIndex(l.E.P, i, h)
	} else if h == (H{}) {
		err = l.R.SetValueByIndex(l.E.P, i, nil)
	} else {
		var o = l.E.Objs[h]
		err = l.R.SetValueByIndex(l.E.P, i, &o)
	}
	if l.err(fmt.Sprintf("SetHashByIndex(%d)", i), err, l.idxErr(i)) {
		var diff = l.M[i] != h
		l.M[i] = h
		if diff {
			l.changed(false)
		}
		l.E.N["set"]++
	}
}

// Find a hash
func (l *L) Find(h H) {
	l.E.Log("%s.Find(%s)", l.Name, s(h))
	l.init()
	var idx []int
	for i, x := range l.M {
		if x == h {
			idx = append(idx, i)
		}
	}
	var want error
	if len(idx) == 0 {
		want = registry.ErrNotFound
	}
	var ok, err = l.R.HasHash(l.E.P, h)
	if l.err("HasHash", err, nil) && ok != (len(idx) > 0) {
		l.E.Failf("find", "%s: HasHash(%s) is %t, list %s", l.Name, s(h), ok, ss(l.M))
	}
	var i int
	if i, err = l.R.IndexOfHash(l.E.P, h); l.err("IndexOfHash", err, want) && (i < 0 || i >= len(l.M) || l.M[i] != h) {
		l.E.Failf("find", "%s: IndexOfHash(%s) is %d, list %s", l.Name, s(h), i, ss(l.M))
	}
	var is []int
	if is, err = l.R.IndicesByHash(l.E.P, h); l.err("IndicesByHash", err, want) {
		sort.Ints(is)
		if fmt.Sprint(is) != fmt.Sprint(idx) {
			l.E.Failf("find", "%s: IndicesByHash(%s) is %v, want %v, list %s", l.Name, s(h), is, idx, ss(l.M))
		}
	}
	if want == nil && h == (H{}) {
		want = registry.ErrRefsElementIsNil
	}
	var o Obj
	if err = l.R.ValueByHash(l.E.P, h, &o); l.err("ValueByHash", err, want) && o != l.E.Objs[h] {
		l.E.Failf("find", "%s: ValueByHash(%s) is %v", l.Name, s(h), o)
	}
	o = Obj{}
	i, err = l.R.ValueOfHashWithIndex(l.E.P, h, &o)
	if l.err("ValueOfHashWithIndex", err, want); want != registry.ErrNotFound {
		if i < 0 || i >= len(l.M) || l.M[i] != h || (want == nil && o != l.E.Objs[h]) {
			l.E.Failf("find", "%s: ValueOfHashWithIndex(%s) is %d %v, list %s", l.Name, s(h), i, o, ss(l.M))
		}
	}
	l.E.N["find"]++
}

// Delete by index
func (l *L) Delete(i int) {
	l.E.Log("%s.DeleteByIndex(%d)", l.Name, i)
	l.init()
	var err = l.R.DeleteByIndex(l.E.P, i)
	if l.err(fmt.Sprintf("DeleteByIndex(%d)", i), err, l.idxErr(i)) {
		l.M = append(append([]H(nil), l.M[:i]...), l.M[i+1:]...)
		l.Fresh = false
		l.changed(false)
		l.E.N["delete"]++
	}
}

// DeleteHash deletes all by hash
func (l *L) DeleteHash(h H) {
	l.E.Log("%s.DeleteByHash(%s)", l.Name, s(h))
	l.init()
	var want = registry.ErrNotFound
	var m []H
	for _, x := range l.M {
		if x == h {
			want = nil
			continue
		}
		m = append(m, x)
	}
	var err = l.R.DeleteByHash(l.E.P, h)
	if l.err("DeleteByHash", err, want) {
		l.M = m
		l.Fresh = false
		l.changed(false)
		l.E.N["delete_by_hash"]++
	}
}

// Slice creates a list
func (l *L) Slice(i, j int) (o *L) {
	l.E.Log("L%d = %s.Slice(%d, %d)", len(l.E.Ls), l.Name, i, j)
	l.init()
	var want error
	if i < 0 || j < 0 || i > len(l.M) || j > len(l.M) {
		want = registry.ErrIndexOutOfRange
	} else if i > j {
		want = registry.ErrInvalidSliceIndex
	}
	var r, err = l.R.Slice(l.E.P, i, j)
	if !l.err(fmt.Sprintf("Slice(%d, %d)", i, j), err, want) {
		return
	}
	o = &L{E: l.E, Name: fmt.Sprint("L", len(l.E.Ls)), R: r, M: append([]H(nil), l.M[i:j]...),
		Init: true, Deg: l.Deg, Fl: l.Fl, Fresh: true}
	l.E.Ls = append(l.E.Ls, o)
	o.remember()
	l.E.N["slice"]++
	o.Check("being sliced")
	l.Check("Slice")
	return
}

// SetDegree of the list
func (l *L) SetDegree(d registry.Degree) {
	l.E.Log("%s.SetDegree(%d)", l.Name, d)
	var err = l.R.SetDegree(l.E.P, d)
	if d < 2 || d > registry.MaxDegree {
		l.err("SetDegree", err, registry.ErrInvalidDegree)
		return
	}
	l.init()
	if l.err("SetDegree", err, nil) {
		l.Deg = d
		l.changed(false)
		if !l.Stale {
			l.Fresh = true
		}
		l.E.N["set_degree"]++
	}
}

// Clear the list
func (l *L) Clear() {
	l.E.Log("%s.Clear()", l.Name)
	l.R.Clear()
	l.M, l.Init, l.Stale, l.Fresh = nil, false, false, true
	l.remember()
	l.E.N["clear"]++
}

// Rebuild the list
func (l *L) Rebuild() {
	l.E.Log("%s.Rebuild()", l.Name)
	l.init()
	var d, _ = l.R.Depth(l.E.P)
	if l.err("Rebuild", l.R.Rebuild(l.E.P), nil) {
		l.changed(true)
		if k, err := l.R.Depth(l.E.P); err != nil || k > d {
			l.E.Failf("depth", "%s: Rebuild turned depth %d to %d (error %v)", l.Name, d, k, err)
		}
		l.E.N["rebuild"]++
	}
}

// Walk through the list; it loads branches, and doesn't change the list
func (l *L) Walk() {
	var stop = -1 // stop at the element
	var skip = l.E.R.Intn(3) == 0
	if l.E.R.Intn(3) == 0 {
		stop = l.E.R.Intn(len(l.M) + 1)
	}
	l.E.Log("%s.Walk(stop %d, skip %t)", l.Name, stop, skip)
	var got []H
	var calls, skipped int
	var err = l.R.Walk(l.E.P, nil, func(h H, d int) (bool, error) {
		calls++
		if d == 0 {
			if len(got) == stop {
				return false, registry.ErrStopIteration
			}
			got = append(got, h)
			return false, nil
		}
		if skip && calls > 1 && l.E.R.Intn(3) == 0 {
			skipped++
			return false, nil
		}
		return true, nil
	})
	if !l.err("Walk", err, nil) {
		return
	}
	if l.Stale {
		l.changed(true)
	}
	var want = l.M
	if stop >= 0 && stop < len(want) {
		want = want[:stop]
	}
	if skipped == 0 && !eq(got, want) {
		l.E.Failf("walk", "%s: Walk shows %s, want %s", l.Name, ss(got), ss(want))
	}
	l.E.N["walk"]++
}

// Reload resets the list
func (l *L) Reload() {
	if l.Stale {
		l.Rebuild()
	}
	l.E.Log("%s.Reset()", l.Name)
	if l.err("Reset", l.R.Reset(), nil) {
		l.Init = false
		l.E.N["reset"]++
	}
}

// Op performs a random operation
func (l *L) Op() {
	var e, r = l.E, l.E.R
	switch r.Intn(25) {
	case 0, 1, 2, 3:
		l.Append(e.Hashes(e.amount()))
	case 4, 5:
		l.AppendValues(e.Hashes(e.amount()))
	case 6:
		if o := e.Ls[r.Intn(len(e.Ls))]; o != l {
			l.AppendRefs(o)
		}
	case 7, 8:
		l.Get(l.Idx())
	case 9, 10, 11:
		l.Set(l.Idx(), e.Hash())
	case 12:
		l.Find(e.Hash())
	case 13, 14, 15, 16:
		l.Delete(l.Idx())
	case 17, 18:
		var h = e.Hash()
		if len(l.M) > 0 && r.Intn(3) > 0 {
			h = l.M[r.Intn(len(l.M))]
		}
		l.DeleteHash(h)
	case 19:
		if len(e.Ls) < 5 {
			var i, j = l.Idx(), l.Idx()
			if i > j && r.Intn(8) > 0 {
				i, j = j, i
			}
			l.Slice(i, j)
		}
	case 20:
		if r.Intn(3) == 0 {
			l.SetDegree([]registry.Degree{0, 1, 2, 3, 4, 6, 16, 1024, 1025, -5}[r.Intn(10)])
		}
	case 21:
		if r.Intn(6) == 0 {
			l.Clear()
		} else {
			l.Init = l.Init && true
			e.Log("%s.Init()", l.Name)
			l.init()
			l.err("Init", l.R.Init(e.P), nil)
		}
	case 22:
		l.Rebuild()
	case 23:
		l.Reload()
	case 24:
		l.Walk()
		if l.lazy() == false || r.Intn(2) == 0 {
			l.Find(e.Hash())
		}
	}
}

func (e *E) amount() int {
	switch e.R.Intn(8) {
	case 0:
		return 0
	case 1:
		return e.R.Intn(40)
	case 2, 3:
		return e.R.Intn(10)
	}
	return 1 + e.R.Intn(3)
}

//
// iterations
//

// ErrX is a custom error
var ErrX = errors.New("refsm: X")

// Iterate over the list with changes from within the iteration
func (l *L) Iterate() {
	var e, r = l.E, l.E.R
	l.init()
	var asc = r.Intn(2) == 0
	var from, fromSet = l.Idx(), r.Intn(2) == 0
	var stop, fail, limit = -1, -1, -1
	switch r.Intn(4) {
	case 0:
		stop = r.Intn(len(l.M) + 2)
	case 1:
		fail = r.Intn(len(l.M) + 2)
	}
	if limit = 3*len(l.M) + 10; limit > 200 { // appends can make it endless
		limit = 200
		if len(l.M) > 150 {
			limit = len(l.M) + 50
		}
	}
	var rate = []int{0, 2, 5, 20}[r.Intn(4)]
	var name = map[bool]string{true: "Ascend", false: "Descend"}[asc]
	var want error
	if fromSet {
		name += "From"
		if want = l.idxErr(from); asc && from == 0 && len(l.M) == 0 {
			want = nil
		}
	} else if from = 0; !asc {
		from = len(l.M) - 1
	}
	e.Log("%s.%s(%d) {", l.Name, name, from)
	e.level++
	var next, n = from, 0
	var over = want != nil || from < 0
	var ended error
	var fn = func(i int, h H) error {
		if e.fail != nil {
			return ErrX
		}
		if over {
			e.Failf("iteration", "%s.%s: called with %d after its end, list %s", l.Name, name, i, ss(l.M))
			return ErrX
		}
		if i != next || i < 0 || i >= len(l.M) {
			e.Failf("iteration", "%s.%s: called with index %d, want %d, length %d, list %s", l.Name, name, i, next, len(l.M), ss(l.M))
			return ErrX
		}
		if h != l.M[i] {
			e.Failf("iteration", "%s.%s: called with %s for index %d, want %s, list %s", l.Name, name, s(h), i, s(l.M[i]), ss(l.M))
			return ErrX
		}
		e.Log("%d", i)
		if rate > 0 && r.Intn(rate) == 0 {
			l.inside()
		}
		e.N["visits"]++
		if n++; n > limit || n-1 == stop {
			over, ended = true, nil
			e.N["stops"]++
			return registry.ErrStopIteration
		}
		if n-1 == fail {
			over, ended = true, ErrX
			e.N["errors"]++
			return ErrX
		}
		if asc {
			next = i + 1
			over = next >= len(l.M)
		} else {
			next = i - 1
			if next >= len(l.M) {
				over, ended = true, registry.ErrIndexOutOfRange
				if len(l.M) == 0 {
					ended = nil // nothing to iterate, either is possible
					e.N["emptied"]++
				}
			} else {
				over = next < 0
			}
		}
		return nil
	}
	var err error
	switch {
	case asc && fromSet:
		err = l.R.AscendFrom(e.P, from, fn)
	case asc:
		err = l.R.Ascend(e.P, fn)
	case fromSet:
		err = l.R.DescendFrom(e.P, from, fn)
	default:
		err = l.R.Descend(e.P, fn)
	}
	e.level--
	e.Log("}")
	if want == nil {
		want = ended
	}
	if e.fail != nil {
		return
	}
	if err == registry.ErrIndexOutOfRange && want == nil && len(l.M) == 0 && !asc {
		err = nil
	}
	if !over && !(asc && len(l.M) == 0) && !(from < 0 && !fromSet) {
		e.Failf("iteration", "%s.%s: ended (error %v) before index %d, list %s", l.Name, name, err, next, ss(l.M))
		return
	}
	l.err(name, err, want)
	e.N["iterations"]++
	if e.level > 0 {
		e.N["nested"]++
	}
}

// inside an iteration
func (l *L) inside() {
	var e, r = l.E, l.E.R
	e.level++
	defer func() { e.level-- }()
	switch r.Intn(18) {
	case 0, 1:
		l.Append(e.Hashes(1 + r.Intn(3)))
	case 2:
		l.Append(e.Hashes(r.Intn(20)))
	case 3, 4, 5:
		l.Delete(l.Idx())
	case 6:
		l.DeleteHash(e.Hash())
	case 7, 8:
		l.Set(l.Idx(), e.Hash())
	case 9:
		l.Get(l.Idx())
	case 10, 11, 12:
		if e.level < 6 {
			l.Iterate()
		}
	case 13:
		if o := e.Ls[r.Intn(len(e.Ls))]; o != l {
			l.AppendRefs(o)
		}
	case 14:
		if len(e.Ls) < 5 {
			var i, j = l.Idx(), l.Idx()
			if i > j {
				i, j = j, i
			}
			l.Slice(i, j)
		}
	case 15:
		e.Log("%s.Rebuild(), %s.Reset() are refused", l.Name, l.Name)
		l.err("Rebuild inside an iteration", l.R.Rebuild(e.P), registry.ErrRefsIterating)
		l.err("Reset inside an iteration", l.R.Reset(), registry.ErrRefsIterating)
		e.N["refused"]++
	case 16:
		l.SetDegree([]registry.Degree{2, 3, 4, 6, 16}[r.Intn(5)])
	case 17:
		if r.Intn(4) == 0 {
			l.Clear()
			l.init()
			// flags are taken from the Pack by the iteration itself
			e.P.Fl = l.Fl
		}
		l.Find(e.Hash())
	}
}

// Nodes returns hashes of all nodes of a stored tree
func (e *E) Nodes(h H) (ns []H) {
	ns = append(ns, h)
	var v = e.P.M[h]
	var els, _ = elems(v[12:])
	return e.nodes(els, int(binary.LittleEndian.Uint32(v)), ns)
}

func (e *E) nodes(els []H, dep int, ns []H) []H {
	if dep == 0 {
		return ns
	}
	for _, h := range els {
		ns = append(ns, h)
		var sub, _ = elems(e.P.M[h][4:])
		ns = e.nodes(sub, dep-1, ns)
	}
	return ns
}

// Read of a Refs that must be equal to the list, the error is error of
// the storage
func (l *L) Read(x *registry.Refs) (what string, err error) {
	var e = l.E
	switch e.R.Intn(6) {
	case 0:
		what = "Len"
		var n int
		if n, err = x.Len(e.P); err == nil && n != len(l.M) {
			e.Failf("fault", "Len is %d, want %d", n, len(l.M))
		}
	case 1:
		var i = e.R.Intn(len(l.M))
		what = fmt.Sprintf("HashByIndex(%d)", i)
		var h H
		if h, err = x.HashByIndex(e.P, i); err == nil && h != l.M[i] {
			e.Failf("fault", "HashByIndex(%d) is %s, want %s", i, s(h), s(l.M[i]))
		}
	case 2, 3:
		var got []H
		what = "Ascend"
		err = x.Ascend(e.P, func(_ int, h H) error { got = append(got, h); return nil })
		if (err == nil && !eq(got, l.M)) || len(got) > len(l.M) || !eq(got, l.M[:len(got)]) {
			e.Failf("fault", "Ascend goes over %s (error %v), want %s", ss(got), err, ss(l.M))
		}
	case 4:
		var h = l.M[e.R.Intn(len(l.M))]
		what = "HasHash " + s(h)
		var ok bool
		if ok, err = x.HasHash(e.P, h); err == nil && !ok {
			e.Failf("fault", "HasHash(%s) is false, list %s", s(h), ss(l.M))
		}
	case 5:
		what = "Slice"
		var o *registry.Refs
		if o, err = x.Slice(e.P, 0, len(l.M)); err == nil {
			if n, er := o.Len(e.P); er != nil || n != len(l.M) {
				e.Failf("fault", "length of slice is %d (%v), want %d", n, er, len(l.M))
			}
		}
	}
	return
}
