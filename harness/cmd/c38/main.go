// C38: references give the values they were set to
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/kit"
	"verif/regm"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

// H is hash
type H = cipher.SHA256

// Leaf has no references
type Leaf struct {
	N uint64
	S string
	B []byte
}

// Other has no references too
type Other struct {
	A [3]int16
	F bool
}

// Holder keeps references of every kind
type Holder struct {
	Name string
	L    registry.Ref `skyobject:"schema=c38.Leaf"`
	O    registry.Ref `skyobject:"schema=c38.Other"`
	L2   registry.Ref `skyobject:"schema=c38.Leaf"`
	D    registry.Dynamic
}

const maxSize = 1024

func main() {
	kit.Main("C38", kit.Opts{
		Rule: "random histories of references (Ref and Dynamic) set to random values of three types, set to nil, to values that are too large, cleared, copied and made invalid; " +
			"every reading is compared with the value, in the session that wrote it and, after saving of a root and reopening of the registry, by read-only sessions; degree and flags of sessions are " +
			"compared with a model; non-trivial if something has been saved and read back; distinct by the history",
		Need: []string{"set", "set_nil", "too_large", "boundary", "clear", "read", "read_blank", "read_invalid", "read_missing", "read_saved", "saved",
			"degree", "flags", "lists_of_degree", "sizes_refused", "sizes_accepted"},
		MinCases: 300,
		Watchdog: 10 * time.Minute,
	}, run)
}

func run(k *kit.K) {
	var wg sync.WaitGroup
	var next = make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				k.Within("hang", fmt.Sprint(i), time.Minute, func() {
					var t = &test{k: k, r: k.Rng("refs", i), name: fmt.Sprint(i)}
					k.Guard("panic", t.name, t.episode)
				})
			}
		}()
	}
	for i := 0; i < k.N(4000, 80000) && k.Bad() < 100; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
	misuse(k)
	for i := 0; i < k.N(60, 600) && k.Bad() < 100; i++ {
		limits(k, i)
	}
}

// slot is a reference, and what it must be
type slot struct {
	dyn  bool
	ref  registry.Ref
	d    registry.Dynamic
	typ  int    // type of the value
	val  []byte // encoded value, or nil
	kind int    // of the state
}

// states of a slot
const (
	blank = iota
	set
	invalid // a Dynamic with a hash, but without a schema
	missing // hash of nothing
)

type test struct {
	k    *kit.K
	r    *rand.Rand
	name string
	log  []string
	bad  bool

	c   *skyobject.Container
	reg *registry.Registry
	up  *skyobject.Unpack
	sk  cipher.SecKey
	pk  cipher.PubKey
	ss  []*slot
	deg registry.Degree
	fl  registry.Flags

	saved map[H]bool
}

func (t *test) logf(f string, a ...interface{}) { t.log = append(t.log, fmt.Sprintf(f, a...)) }

func (t *test) fail(key, f string, a ...interface{}) {
	t.bad = true
	t.k.Violate(key, t.name+"\n"+strings.Join(t.log, "\n"), f, a...)
}

var names = []string{"c38.Leaf", "c38.Other", "c38.Holder"}

// value of a type, of the size if it's not zero
func (t *test) value(typ, size int) interface{} {
	var r = t.r
	switch typ {
	case 0:
		var l = &Leaf{N: uint64(r.Intn(6)), S: strings.Repeat("s", r.Intn(4))}
		if size != 0 {
			l.N = r.Uint64()
			l.B = make([]byte, size-len(regm.Enc(l)))
			r.Read(l.B)
		}
		return l
	case 1:
		return &Other{A: [3]int16{int16(r.Intn(3)), -1, int16(r.Uint32())}, F: r.Intn(2) == 0}
	}
	var h = &Holder{Name: fmt.Sprint("holder ", r.Intn(1000))}
	for _, s := range t.ss {
		if s.kind != set || r.Intn(2) == 0 {
			continue
		}
		switch {
		case s.dyn:
			h.D = s.d
		case s.typ == 0 && r.Intn(2) == 0:
			h.L2 = s.ref
		case s.typ == 0:
			h.L = s.ref
		case s.typ == 1:
			h.O = s.ref
		}
	}
	return h
}

func fresh(typ int) interface{} {
	return []interface{}{&Leaf{}, &Other{}, &Holder{}}[typ]
}

func nilOf(typ int) interface{} {
	return []interface{}{(*Leaf)(nil), (*Other)(nil), (*Holder)(nil), nil}[typ]
}

func (t *test) schema(typ int) registry.SchemaRef {
	var sc, err = t.reg.SchemaByName(names[typ])
	if err != nil {
		t.fail("schema", "%v", err)
		return registry.SchemaRef{1}
	}
	return sc.Reference()
}

func (t *test) setValue(s *slot) {
	var r = t.r
	var ref, dyn = s.ref, s.d
	var apply = func(v interface{}) error {
		if s.dyn {
			return s.d.SetValue(t.up, v)
		}
		return s.ref.SetValue(t.up, v)
	}
	switch r.Intn(8) {
	case 0: // nil
		var n = r.Intn(4)
		t.logf("set to nil of type %d", n)
		if err := apply(nilOf(n)); err != nil {
			t.fail("nil", "set to nil: %v", err)
		}
		*s = slot{dyn: s.dyn, ref: s.ref, d: s.d}
		t.k.Count("set_nil", 1)
		return
	case 1: // too large
		var size = maxSize + 1
		if r.Intn(2) == 0 {
			size += r.Intn(3000)
		}
		var v = t.value(0, size)
		t.logf("set to a value of %d bytes", size)
		var err = apply(v)
		var want = cipher.SumSHA256(regm.Enc(v))
		if x, ok := err.(*skyobject.ObjectIsTooLargeError); !ok {
			t.fail("large", "set to a value of %d bytes: error %v", size, err)
		} else if !strings.Contains(x.Error(), want.Hex()[:7]) {
			t.fail("large", "the error doesn't show the object %s: %v", want.Hex()[:7], x)
		}
		if s.ref != ref || s.d != dyn {
			t.fail("large", "the reference is changed by a failure")
		}
		t.k.Count("too_large", 1)
		return
	}
	var typ, size = r.Intn(3), 0
	if r.Intn(6) == 0 {
		typ, size = 0, maxSize
		t.k.Count("boundary", 1)
	}
	var v = t.value(typ, size)
	var enc = regm.Enc(v)
	t.logf("set (dynamic: %t) to %+v, %d bytes", s.dyn, v, len(enc))
	if s.dyn {
		s.d.Schema = t.schema(typ)
	}
	if err := apply(v); err != nil {
		t.fail("set", "set: %v", err)
		return
	}
	var h = s.ref.Hash
	if s.dyn {
		h = s.d.Hash
		if s.d.Schema != t.schema(typ) {
			t.fail("set", "SetValue changes the schema")
		}
	}
	if h != cipher.SumSHA256(enc) {
		t.fail("set", "the hash %s is not hash of the value", h.Hex())
	}
	s.typ, s.val, s.kind = typ, enc, set
	t.k.Count("set", 1)
}

// check what the reference is
func (t *test) state(s *slot) {
	var h, isBlank = s.ref.Hash, s.ref.IsBlank()
	if s.dyn {
		h, isBlank = s.d.Hash, s.d.IsBlank()
		if s.d.IsValid() != (s.kind != invalid) {
			t.fail("state", "IsValid of %s is %t, want %t", s.d.String(), s.d.IsValid(), s.kind != invalid)
		}
		if x := s.d.String(); !strings.Contains(x, h.Hex()) || !strings.Contains(x, s.d.Schema.String()) {
			t.fail("state", "String of a dynamic is %q", x)
		}
		if x := s.d.Short(); !strings.Contains(x, h.Hex()[:7]) || !strings.Contains(x, s.d.Schema.Short()) {
			t.fail("state", "Short of a dynamic is %q", x)
		}
	} else if s.ref.String() != h.Hex() || !strings.HasPrefix(h.Hex(), s.ref.Short()) {
		t.fail("state", "String of a reference is %q, %q", s.ref.String(), s.ref.Short())
	}
	if isBlank != (s.kind == blank) {
		t.fail("state", "IsBlank is %t, want %t", isBlank, s.kind == blank)
	}
	if s.kind == blank && (s.ref != registry.Ref{} || s.d != registry.Dynamic{}) {
		t.fail("state", "a cleared reference is not blank")
	}
}

// read the value
func (t *test) read(s *slot, p registry.Pack) (ok bool) {
	var v, sentinel = fresh(s.typ), regm.Enc(fresh(s.typ))
	var err error
	var ref, d = s.ref, s.d
	if s.dyn {
		err = s.d.Value(p, v)
	} else {
		err = s.ref.Value(p, v)
	}
	if s.ref != ref || s.d != d {
		t.fail("read", "reading changes the reference")
	}
	var want error
	switch s.kind {
	case blank:
		want = registry.ErrReferenceRepresentsNil
		t.k.Count("read_blank", 1)
	case invalid:
		want = registry.ErrInvalidDynamicReference
		t.k.Count("read_invalid", 1)
	case missing:
		want = data.ErrNotFound
		t.k.Count("read_missing", 1)
	}
	if err != want {
		t.fail("read", "reading: error %v, want %v", err, want)
		return
	}
	var got = regm.Enc(v)
	if want != nil {
		if !bytes.Equal(got, sentinel) {
			t.fail("read", "failed reading changes the value")
		}
		return
	}
	if !bytes.Equal(got, s.val) {
		t.fail("read", "the value is %+v (%x), want %x", v, got, s.val)
	}
	t.k.Count("read", 1)
	return !t.bad
}

func (t *test) episode() {
	var r, k = t.r, t.k
	var conf = skyobject.NewConfig()
	conf.InMemoryDB = true
	conf.MaxObjectSize = maxSize
	conf.Degree = []registry.Degree{2, 3, 16, 1024}[r.Intn(4)]
	if r.Intn(3) == 0 { // no cache
		conf.CacheMaxAmount, conf.CacheMaxVolume, conf.CacheMaxItemSize = 0, 0, 0
	}
	var err error
	if t.c, err = skyobject.NewContainer(conf); err != nil {
		t.fail("new", "%v", err)
		return
	}
	defer t.c.Close()
	t.reg = registry.NewRegistry(func(x *registry.Reg) {
		x.Register("c38.Leaf", Leaf{})
		x.Register("c38.Other", Other{})
		x.Register("c38.Holder", Holder{})
	})
	if t.pk, t.sk, err = cipher.GenerateDeterministicKeyPair([]byte(t.name)); err != nil {
		t.fail("new", "%v", err)
		return
	}
	if err = t.c.AddFeed(t.pk); err != nil {
		t.fail("new", "%v", err)
		return
	}
	for i := 0; i < 8; i++ {
		t.ss = append(t.ss, &slot{dyn: i%2 == 0})
	}
	var rt = &registry.Root{Pub: t.pk, Nonce: 1 + r.Uint64()>>1}
	for n := 1 + r.Intn(3); n > 0 && !t.bad; n-- {
		t.session(rt, conf.Degree)
	}
	k.Case(len(t.saved) > 0, strings.Join(t.log, "\n"))
}

// a session changes references, and saves them
func (t *test) session(rt *registry.Root, deg registry.Degree) {
	var r, err = t.r, error(nil)
	if t.up, err = t.c.Unpack(t.sk, t.reg); err != nil {
		t.fail("session", "%v", err)
		return
	}
	defer t.up.Close()
	t.deg, t.fl = deg, 0
	for i := 5 + r.Intn(30); i > 0 && !t.bad; i-- {
		var s = t.ss[r.Intn(len(t.ss))]
		switch r.Intn(12) {
		case 0, 1, 2, 3, 4:
			t.setValue(s)
		case 5:
			t.logf("clear")
			if s.dyn {
				s.d.Clear()
			} else {
				s.ref.Clear()
			}
			*s = slot{dyn: s.dyn, ref: s.ref, d: s.d}
			t.k.Count("clear", 1)
		case 6: // copy
			for _, o := range t.ss {
				if o.dyn == s.dyn && r.Intn(3) == 0 {
					*o = *s
				}
			}
		case 7:
			var h H
			r.Read(h[:])
			switch r.Intn(3) {
			case 0:
				if s.dyn {
					t.logf("invalid")
					*s = slot{dyn: true, kind: invalid}
					s.d.Hash = h
				}
			case 1:
				t.logf("missing")
				*s = slot{dyn: s.dyn, kind: missing}
				if s.ref.Hash = h; s.dyn {
					s.d = registry.Dynamic{Hash: h, Schema: t.schema(0)}
					s.ref = registry.Ref{}
				}
			}
		case 8:
			t.settings()
		default:
			t.read(s, t.up)
		}
		t.state(s)
		if t.up.Degree() != t.deg || t.up.Flags() != t.fl {
			t.fail("settings", "degree %d and flags %d of the session, want %d, %d", t.up.Degree(), t.up.Flags(), t.deg, t.fl)
		}
	}
	for _, s := range t.ss {
		t.state(s)
		t.read(s, t.up)
	}
	if t.bad {
		return
	}
	// save, the root shows all that is set
	rt.Refs = nil
	var saved []*slot
	for _, s := range t.ss {
		if s.kind != set {
			continue
		}
		saved = append(saved, s)
		if s.dyn {
			rt.Refs = append(rt.Refs, s.d)
			continue
		}
		var d = registry.Dynamic{Schema: t.schema(2), Hash: s.ref.Hash}
		if s.typ < 2 {
			var h = &Holder{Name: fmt.Sprint("root ", r.Intn(1000))}
			switch {
			case s.typ == 1:
				h.O = s.ref
			case r.Intn(2) == 0:
				h.L = s.ref
			default:
				h.L2 = s.ref
			}
			if err = d.SetValue(t.up, h); err != nil {
				t.fail("set", "%v", err)
				return
			}
		}
		rt.Refs = append(rt.Refs, d)
	}
	t.logf("save, %d of them", len(saved))
	if err = t.c.Save(t.up, rt); err != nil {
		t.fail("save", "%v", err)
		return
	}
	t.k.Count("saved", 1)
	if err = t.up.Close(); err != nil {
		t.fail("save", "%v", err)
		return
	}
	// by another session with decoded registry
	last, err := t.c.LastRoot(t.pk, rt.Nonce)
	if err != nil || last.Hash != rt.Hash || len(last.Refs) != len(rt.Refs) {
		t.fail("saved", "the last root: %v", err)
		return
	}
	for i := range last.Refs {
		if last.Refs[i] != rt.Refs[i] {
			t.fail("saved", "a reference of the root is changed")
		}
	}
	var reg *registry.Registry
	if r.Intn(2) == 0 {
		reg = t.reg
	}
	p, err := t.c.Pack(last, reg)
	if err != nil {
		t.fail("saved", "Pack: %v", err)
		return
	}
	if p.Degree() != deg || p.Flags() != 0 || p.Registry().Reference() != t.reg.Reference() {
		t.fail("settings", "a new session has degree %d, flags %d", p.Degree(), p.Flags())
	}
	if t.saved == nil {
		t.saved = make(map[H]bool)
	}
	for _, s := range saved {
		if t.read(s, p) {
			t.k.Count("read_saved", 1)
			t.saved[cipher.SumSHA256(s.val)] = true
		}
	}
}

// degree and flags
func (t *test) settings() {
	var r = t.r
	switch r.Intn(3) {
	case 0:
		var d = []registry.Degree{-1, 0, 1, 2, 3, 8, 16, 1023, 1024, 1025, 1 << 31}[r.Intn(11)]
		t.logf("degree %d", d)
		var want error
		if d < 2 || d > registry.MaxDegree {
			want = registry.ErrInvalidDegree
		} else {
			t.deg = d
		}
		if err := t.up.SetDegree(d); err != want {
			t.fail("settings", "SetDegree(%d): error %v, want %v", d, err, want)
		}
		t.k.Count("degree", 1)
	case 1:
		var f = registry.Flags(r.Intn(8))
		if t.logf("flags %d", f); r.Intn(2) == 0 {
			t.up.AddFlags(f)
			t.fl |= f
		} else {
			t.up.ClearFlags(f)
			t.fl &^= f
		}
		t.k.Count("flags", 1)
	case 2: // a new list has the degree and the flags
		var l registry.Refs
		if err := l.AppendValues(t.up, t.value(0, 0), t.value(0, 0)); err != nil {
			t.fail("settings", "AppendValues: %v", err)
			return
		}
		if d, err := l.Degree(t.up); err != nil || d != t.deg || l.Flags() != t.fl {
			t.fail("settings", "a new list has degree %d, flags %d (%v), want %d, %d", d, l.Flags(), err, t.deg, t.fl)
		}
		t.k.Count("lists_of_degree", 1)
	}
}

// the limit of size of a session that is not saved, and of a container with
// objects written while the limit was another one
func limits(k *kit.K, i int) {
	var r = k.Rng("limits", i)
	var t = &test{k: k, r: r, name: fmt.Sprint("limits ", i)}
	var dir, err = os.MkdirTemp("", "c38")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var conf = skyobject.NewConfig()
	conf.DataDir = dir
	conf.DBPath = filepath.Join(dir, "db")
	conf.MaxObjectSize = 3000
	conf.CheckSizes = r.Intn(2) == 0
	k.Guard("panic", t.name, func() {
		if t.c, err = skyobject.NewContainer(conf); err != nil {
			t.fail("limits", "%v", err)
			return
		}
		var closed bool
		defer func() {
			if !closed {
				t.c.Close()
			}
		}()
		t.reg = registry.NewRegistry(func(x *registry.Reg) {
			x.Register("c38.Leaf", Leaf{})
			x.Register("c38.Other", Other{})
			x.Register("c38.Holder", Holder{})
		})
		t.pk, t.sk, _ = cipher.GenerateDeterministicKeyPair([]byte(t.name))
		if err = t.c.AddFeed(t.pk); err != nil {
			t.fail("limits", "%v", err)
			return
		}
		if t.up, err = t.c.Unpack(t.sk, t.reg); err != nil {
			t.fail("limits", "%v", err)
			return
		}
		var rt = &registry.Root{Pub: t.pk, Nonce: 1}
		var max, sizes = 0, make(map[H]int)
		for j := r.Intn(3); j >= 0; j-- {
			var size = []int{1024, 1025, 2000, 2999, 3000}[r.Intn(5)]
			var d = registry.Dynamic{Schema: t.schema(0)}
			if err = d.SetValue(t.up, t.value(0, size)); err != nil {
				t.fail("limits", "%d bytes: %v", size, err)
				return
			}
			sizes[d.Hash] = size
			if rt.Refs = append(rt.Refs, d); size > max {
				max = size
			}
		}
		if err = t.c.Save(t.up, rt); err != nil {
			t.fail("limits", "%v", err)
			return
		}
		t.up.Close()
		// a Pack
		var p, perr = t.c.Pack(rt, t.reg)
		if perr != nil {
			t.fail("limits", "%v", perr)
			return
		}
		for _, size := range []int{2999, 3000, 3001, 3000 + r.Intn(5000)} {
			var val = make([]byte, size)
			r.Read(val)
			var h, err = p.Add(val)
			var _, large = err.(*skyobject.ObjectIsTooLargeError)
			if large != (size > 3000) || (err != nil) != large {
				t.fail("limits", "Add of %d bytes: error %v", size, err)
			}
			var got, gerr = p.Get(cipher.SumSHA256(val))
			if large && gerr != data.ErrNotFound || !large && (gerr != nil || !bytes.Equal(got, val) || h != cipher.SumSHA256(val)) {
				t.fail("limits", "Get after Add of %d bytes: %d bytes, error %v", size, len(got), gerr)
			}
			if !large {
				sizes[h] = size
				if size > max {
					max = size
				}
			}
		}
		closed = true
		if err = t.c.Close(); err != nil {
			t.fail("limits", "Close: %v", err)
			return
		}
		// other limits
		for _, limit := range []int{max - 1, max, max + 1, 1024} {
			for _, check := range []bool{true, false} {
				var cf = *conf
				cf.MaxObjectSize, cf.CheckSizes = limit, check
				var c, err = skyobject.NewContainer(&cf)
				var x, large = err.(*skyobject.ObjectIsTooLargeError)
				if large != (check && limit < max) || (err != nil) != large {
					t.fail("limits", "opened with limit %d (check: %t), the largest object is of %d: error %v", limit, check, max, err)
				}
				if large && sizes[x.Hash()] <= limit {
					t.fail("limits", "the error shows another object")
				}
				if err != nil {
					k.Count("sizes_refused", 1)
					continue
				}
				k.Count("sizes_accepted", 1)
				last, err := c.LastRoot(t.pk, 1)
				if err != nil || last.Hash != rt.Hash {
					t.fail("limits", "the last root: %v", err)
				}
				c.Close()
			}
		}
	})
	k.Case(true, t.name)
}

// sessions that can't be
func misuse(k *kit.K) {
	var conf = skyobject.NewConfig()
	conf.InMemoryDB = true
	var c, err = skyobject.NewContainer(conf)
	if err != nil {
		k.Violate("new", "misuse", "%v", err)
		return
	}
	defer c.Close()
	var reg = registry.NewRegistry(func(x *registry.Reg) { x.Register("c38.Leaf", Leaf{}) })
	var _, sk = cipher.GenerateKeyPair()
	k.Guard("panic", "misuse", func() {
		if _, err = c.Unpack(sk, nil); err == nil {
			k.Violate("misuse", "misuse", "Unpack without a registry")
		}
		if _, err = c.Unpack(cipher.SecKey{}, reg); err == nil {
			k.Violate("misuse", "misuse", "Unpack with blank secret key")
		}
		if _, err = c.Pack(&registry.Root{Reg: registry.RegistryRef{1}}, nil); err != data.ErrNotFound {
			k.Violate("misuse", "misuse", "Pack with unknown registry: %v", err)
		}
	})
}
