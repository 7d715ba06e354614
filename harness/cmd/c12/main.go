// C12: hostile encoded registries and objects never crash or hang
package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/kit"
	"verif/regm"

	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"
)

func main() {
	kit.Main("C12", kit.Opts{
		Rule: "bytes are random, mutated from valid encodings, or built from the structure of the format (types that contain themselves, " +
			"unknown kinds and references, missing and repeated names, huge lengths, deep nesting, structures that multiply, trees of references " +
			"with wrong lengths, depths and degrees); what is decoded is used in every way; an input is non-trivial if a part of it was decoded",
		Assume: []string{"a bound of memory is 160 MB and 3000 bytes per byte of input, a bound of time is 60 s for input that is not longer than 64 KB",
			"objects a tree shares many times are read many times: inputs that are exponential by sharing objects are not given, nor chains of more than thousands of objects"},
		Need: []string{"registries_accepted", "registries_refused", "roots_accepted", "roots_refused", "objects", "walks_ok",
			"walks_failed", "splits", "trees", "refs_ok", "refs_failed", "sizes_ok", "sizes_failed"},
		MinCases: 3000,
		Watchdog: 14 * time.Minute,
	}, run)
}

// bound checks time, memory and panics
func bound(k *kit.K, key string, in []byte, desc func() string, f func()) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	var done = make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if e := recover(); e != nil {
				var buf = make([]byte, 16384)
				k.Violate(key+"-panic", desc(), "panic: %v\n%s", e, buf[:runtime.Stack(buf, false)])
			}
		}()
		f()
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		k.Within(key+"-hang", desc(), 30*time.Second, func() { <-done })
	}
	runtime.ReadMemStats(&b)
	if x := b.TotalAlloc - a.TotalAlloc; x > 160<<20+3000*uint64(len(in)) {
		k.Violate(key+"-memory", desc(), "%d bytes of input, %d bytes are allocated", len(in), x)
	}
}

func hx(b []byte) string {
	if len(b) > 3000 {
		return hex.EncodeToString(b[:3000]) + "..."
	}
	return hex.EncodeToString(b)
}

func run(k *kit.K) {
	for i := 0; i < k.N(7000, 150000) && k.Bad() < 20; i++ {
		var r = k.Rng("reg", i)
		var b, how = genRegistry(r)
		tryRegistry(k, r, b, how)
	}
	for i := 0; i < k.N(2000, 60000) && k.Bad() < 20; i++ {
		objects(k, k.Rng("obj", i))
	}
	for i := 0; i < k.N(20000, 300000) && k.Bad() < 20; i++ {
		tryRoot(k, k.Rng("root", i))
	}
	for i := 0; i < k.N(20000, 300000) && k.Bad() < 20; i++ {
		tryRefs(k, k.Rng("refs", i))
	}
}

//
// registries
//

type encodedSchema struct {
	ReferenceType uint32
	Kind          uint32
	Name          []byte
	Len           uint32
	Fields        [][]byte
	Elem          []byte
}

type encodedField struct {
	Name   []byte
	Tag    []byte
	Kind   uint32
	Schema []byte
}

type entity struct {
	Name   string
	Schema []byte
}

var kinds = []reflect.Kind{reflect.Bool, reflect.Int8, reflect.Uint8, reflect.Int16, reflect.Uint16, reflect.Int32,
	reflect.Uint32, reflect.Int64, reflect.Uint64, reflect.Float32, reflect.Float64, reflect.String}

// G generates schemas
type G struct {
	r     *rand.Rand
	names []string
	evil  int // one of that many is wrong
	left  int // budget of nodes
}

func (g *G) bad() bool { return g.evil > 0 && g.r.Intn(g.evil) == 0 }

func (g *G) name() string {
	if g.bad() {
		return "missing"
	}
	return g.names[g.r.Intn(len(g.names))]
}

func (g *G) byName() []byte {
	return encoder.Serialize(encodedSchema{Kind: uint32(reflect.Struct), Name: []byte(g.name())})
}

func (g *G) schema(d int) []byte {
	var x encodedSchema
	var r = g.r
	g.left--
	if d > 8 || g.left < 0 {
		x.Kind = uint32(kinds[r.Intn(len(kinds))])
		return encoder.Serialize(x)
	}
	switch r.Intn(10) {
	case 0, 1:
		x.Kind = uint32(kinds[r.Intn(len(kinds))])
	case 2:
		return g.byName()
	case 3:
		x.Kind = uint32(reflect.Slice)
		x.Elem = g.schema(d + 1)
	case 4, 5:
		x.Kind = uint32(reflect.Array)
		x.Len = uint32(r.Intn(4))
		if g.bad() || r.Intn(10) == 0 {
			x.Len = []uint32{1 << 31, 1<<32 - 1, 1 << 20, 100000, 1 << 16}[r.Intn(5)]
		}
		x.Elem = g.schema(d + 1)
	case 6:
		x.Kind = uint32(reflect.Struct)
		x.Fields = g.fields(d+1, r.Intn(4))
	case 7, 8:
		x.ReferenceType = uint32(1 + r.Intn(2))
		x.Kind = uint32(reflect.Ptr)
		x.Elem = g.byName()
	case 9:
		x.ReferenceType = 3
		x.Kind = uint32(reflect.Interface)
	}
	if g.bad() { // break something
		switch r.Intn(7) {
		case 0:
			x.Kind = uint32(r.Intn(30))
		case 1:
			x.Kind = r.Uint32()
		case 2:
			x.ReferenceType = uint32(r.Intn(6))
		case 3:
			x.Elem = nil
		case 4:
			x.Elem = make([]byte, r.Intn(30))
			r.Read(x.Elem)
		case 5:
			x.Name = []byte(g.name())
		case 6:
			x.Fields = append(x.Fields, make([]byte, r.Intn(20)))
		}
	}
	return encoder.Serialize(x)
}

func (g *G) fields(d, n int) (fs [][]byte) {
	for i := 0; i < n; i++ {
		var f encodedField
		f.Name = []byte(fmt.Sprint("F", i))
		f.Tag = []byte(`json:"x"`)
		f.Schema = g.schema(d)
		fs = append(fs, encoder.Serialize(f))
	}
	return
}

func strct(name string, fields ...[]byte) []byte {
	var x = encodedSchema{Kind: uint32(reflect.Struct), Name: []byte(name)}
	for i, f := range fields {
		x.Fields = append(x.Fields, encoder.Serialize(encodedField{Name: []byte(fmt.Sprint("F", i)), Schema: f}))
	}
	return encoder.Serialize(x)
}

func ref(name string) []byte { return strct(name) }

func array(n uint32, el []byte) []byte {
	return encoder.Serialize(encodedSchema{Kind: uint32(reflect.Array), Len: n, Elem: el})
}

func slice(el []byte) []byte {
	return encoder.Serialize(encodedSchema{Kind: uint32(reflect.Slice), Elem: el})
}

func pointer(rt uint32, el []byte) []byte {
	return encoder.Serialize(encodedSchema{ReferenceType: rt, Kind: uint32(reflect.Ptr), Elem: el})
}

func scal(kd reflect.Kind) []byte {
	return encoder.Serialize(encodedSchema{Kind: uint32(kd)})
}

func genRegistry(r *rand.Rand) (b []byte, how string) {
	switch r.Intn(10) {
	case 0:
		b = make([]byte, r.Intn(300))
		r.Read(b)
		return b, "random bytes"
	case 1, 2:
		return mutate(r, regm.NewSet(r, regm.Cfg{Max: 4}).Registry(nil0(r)).Encode()), "mutated empty"
	case 3, 4:
		var s = regm.NewSet(r, regm.Cfg{Max: 5, Refs: r.Intn(2) == 0})
		return mutate(r, s.Registry(s.Order()).Encode()), "mutated"
	case 5:
		return special(r)
	}
	var g = G{r: r, evil: []int{0, 0, 100, 30, 10}[r.Intn(5)], left: 10 + r.Intn(200)}
	var n = 1 + r.Intn(6)
	for i := 0; i < n; i++ {
		g.names = append(g.names, fmt.Sprint("t", i))
	}
	var es []entity
	for i := 0; i < n; i++ {
		var x = encodedSchema{Kind: uint32(reflect.Struct), Name: []byte(g.names[i])}
		x.Fields = g.fields(0, r.Intn(5))
		var e = entity{g.names[i], encoder.Serialize(x)}
		if g.bad() {
			e.Schema = g.schema(0)
		}
		if g.bad() {
			e.Name = g.name()
		}
		es = append(es, e)
		if g.bad() {
			es = append(es, e)
		}
	}
	return encoder.Serialize(es), "structural"
}

func nil0(r *rand.Rand) []int { return nil }

// special shapes
func special(r *rand.Rand) (b []byte, how string) {
	var n = 2 + r.Intn(40)
	if r.Intn(6) == 0 {
		n = 100 + r.Intn(400)
	}
	var nm = func(i int) string { return fmt.Sprint("t", i) }
	var es []entity
	var add = func(name string, s []byte) { es = append(es, entity{name, s}) }
	switch how = []string{"laughs", "laughs of arrays", "laughs of slices", "cycle", "cycle of arrays", "cycle of slices", "cycle of references",
		"nested arrays", "nested slices", "nested structs", "huge empty array", "huge array", "many fields", "many empty fields",
		"array of arrays"}[r.Intn(15)]; how {
	case "laughs", "laughs of arrays", "laughs of slices":
		var wrap = func(x []byte) []byte { return x }
		if how == "laughs of arrays" {
			var l = uint32(1 + r.Intn(3))
			wrap = func(x []byte) []byte { return array(l, x) }
		} else if how == "laughs of slices" {
			wrap = slice
		}
		switch r.Intn(4) {
		case 0:
			add(nm(0), strct(nm(0), scal(reflect.Int8)))
		case 1:
			add(nm(0), strct(nm(0), scal(reflect.String)))
		case 2:
			add(nm(0), strct(nm(0), pointer(1, ref(nm(0)))))
		case 3:
			add(nm(0), strct(nm(0), array(0, scal(reflect.Int8))))
		}
		for i := 1; i < n; i++ {
			add(nm(i), strct(nm(i), wrap(ref(nm(i-1))), wrap(ref(nm(i-1)))))
		}
	case "cycle", "cycle of arrays", "cycle of slices", "cycle of references":
		if n > 5 {
			n = 1 + r.Intn(5)
		}
		for i := 0; i < n; i++ {
			var x = ref(nm((i + 1) % n))
			switch how {
			case "cycle of arrays":
				x = array(uint32(r.Intn(3)), x)
			case "cycle of slices":
				x = slice(x)
			case "cycle of references":
				x = pointer(uint32(1+r.Intn(2)), x)
			}
			add(nm(i), strct(nm(i), x, scal(reflect.Int8)))
		}
	case "nested arrays", "nested slices", "nested structs":
		var x = scal(reflect.Int16)
		if r.Intn(2) == 0 {
			x = pointer(1, ref(nm(0)))
		}
		for i := 0; i < n; i++ {
			switch how {
			case "nested arrays":
				x = array(uint32(1+r.Intn(2)*r.Intn(2)), x)
			case "nested slices":
				x = slice(x)
			default:
				x = strct("", x)
			}
		}
		add(nm(0), strct(nm(0), x))
	case "huge empty array":
		var e = strct("")
		if r.Intn(2) == 0 {
			e = array(0, pointer(1, ref(nm(0))))
		}
		add(nm(0), strct(nm(0), array(1<<32-1, e), pointer(1, ref(nm(0))), slice(e)))
	case "huge array":
		add(nm(0), strct(nm(0), array(1<<32-1, pointer(2, ref(nm(0))))))
		add(nm(1), strct(nm(1), array(1<<31, scal(reflect.Int64))))
	case "many fields", "many empty fields":
		var fs [][]byte
		for i := 0; i < n*10; i++ {
			if how == "many fields" {
				fs = append(fs, scal(reflect.Int8))
			} else {
				fs = append(fs, array(0, scal(reflect.Int8)))
			}
		}
		add(nm(0), strct(nm(0), fs...))
		add(nm(1), strct(nm(1), slice(ref(nm(0))), array(1<<30, ref(nm(0))), pointer(1, ref(nm(1)))))
	case "array of arrays":
		var x = scal(kinds[r.Intn(len(kinds))])
		for i := 0; i < 2+r.Intn(8); i++ {
			x = array([]uint32{1 << 31, 1<<32 - 1, 1 << 16, 2}[r.Intn(4)], x)
		}
		add(nm(0), strct(nm(0), x, pointer(1, ref(nm(0)))))
	}
	return encoder.Serialize(es), how
}

func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + r.Intn(4); n > 0 && len(b) > 0; n-- {
		var i = r.Intn(len(b))
		switch r.Intn(8) {
		case 0:
			b[i] ^= 1 << uint(r.Intn(8))
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b = b[:i]
		case 3:
			for j := i; j < i+4 && j < len(b); j++ {
				b[j] = 0xff
			}
		case 4:
			var j = i + r.Intn(len(b)-i)
			b = append(b[:i:i], b[j:]...)
		case 5:
			var j = i + r.Intn(len(b)-i)
			if j > i+200 {
				j = i + 200
			}
			b = append(b[:j:j], b[i:]...)
		case 6:
			b[i] = byte(r.Intn(30))
		case 7:
			for j := i; j < i+4 && j < len(b); j++ {
				b[j] = 0
			}
		}
	}
	return b
}

// splitter walks in parallel
type splitter struct {
	p  *regm.Pack
	wg sync.WaitGroup
	in chan struct{}

	mx    sync.Mutex
	n     int
	fails []error
}

func (s *splitter) Registry() *registry.Registry { return s.p.Reg }

func (s *splitter) Pre(key cipher.SHA256) (rc int, err error) {
	_, rc, err = s.Get(key)
	return
}

func (s *splitter) Get(key cipher.SHA256) (val []byte, rc int, err error) {
	s.mx.Lock()
	s.n++
	var n = s.n
	s.mx.Unlock()
	if n > 4000 {
		return nil, 0, errTooMany
	}
	val, err = s.p.Get(key)
	return
}

func (s *splitter) Fail(err error) {
	s.mx.Lock()
	defer s.mx.Unlock()
	if len(s.fails) < 10 {
		s.fails = append(s.fails, err)
	}
}

var panics sync.Map

func (s *splitter) Go(f func()) {
	var g = func() {
		defer func() {
			if x := recover(); x != nil {
				var b = make([]byte, 4096)
				s.Fail(fmt.Errorf("PANIC %v\n%s", x, b[:runtime.Stack(b, false)]))
			}
		}()
		f()
	}
	select {
	case s.in <- struct{}{}:
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			defer func() { <-s.in }()
			g()
		}()
	default:
		g()
	}
}

func (s *splitter) err() error {
	for _, e := range s.fails {
		if strings.HasPrefix(e.Error(), "PANIC ") {
			panic(e.Error())
		}
	}
	if len(s.fails) > 0 {
		return s.fails[0]
	}
	return nil
}

var errTooMany = errors.New("too many")

// limited is a pack that fails if there are too many requests: objects
// shared many times are read many times
type limited struct {
	*regm.Pack
	n int
}

func (l *limited) Get(key cipher.SHA256) ([]byte, error) {
	if l.n++; l.n > 4000 {
		return nil, errTooMany
	}
	return l.Pack.Get(key)
}

// use an object in every way
func use(k *kit.K, p *regm.Pack, d registry.Dynamic) {
	var n int
	var err = d.Walk(&limited{Pack: p}, func(cipher.SHA256, int) (bool, error) {
		if n++; n > 4000 {
			return false, registry.ErrStopIteration
		}
		return true, nil
	})
	if err == nil {
		k.Count("walks_ok", 1)
	} else {
		k.Count("walks_failed", 1)
	}
	var s = splitter{p: p, in: make(chan struct{}, 4)}
	d.Split(&s)
	s.wg.Wait()
	s.err()
	k.Count("splits", 1)
	var rt = registry.Root{Refs: []registry.Dynamic{d}}
	rt.Tree(&limited{Pack: p})
	k.Count("trees", 1)
}

func tryRegistry(k *kit.K, r *rand.Rand, b []byte, how string) {
	var desc = func() string { return how + ": " + hx(b) }
	var reg *registry.Registry
	var err error
	bound(k, "decode", b, desc, func() { reg, err = registry.DecodeRegistry(b) })
	k.Case(err == nil || how != "random bytes", string(b))
	k.Count("how_"+how, 1)
	if err != nil {
		if reg != nil {
			k.Violate("decode", desc(), "both a registry and an error: %v", err)
		}
		k.Count("registries_refused", 1)
		return
	}
	if reg == nil {
		return
	}
	k.Count("registries_accepted", 1)
	var pack = regm.NewPack(reg)
	var names []string
	bound(k, "use", b, desc, func() {
		var enc = reg.Encode()
		var again, err = registry.DecodeRegistry(enc)
		if err != nil || again.Reference() != reg.Reference() {
			// it's what peers ask for by the reference
			k.Violate("again", desc(), "registry is accepted, encoded, and the result is refused or another one: %v", err)
		}
		for i := 0; i < 500; i++ {
			names = append(names, fmt.Sprint("t", i))
		}
		names = append(names, "missing", "")
	})
	for _, name := range names {
		var sc, err = reg.SchemaByName(name)
		if err != nil {
			continue
		}
		var datas [][]byte
		for i := 0; i < 4; i++ {
			var v = make([]byte, r.Intn(200)*r.Intn(20))
			if r.Intn(3) == 0 {
				r.Read(v)
			} else if r.Intn(2) == 0 {
				for j := range v {
					v[j] = byte(r.Intn(2))
				}
			} else if len(v) > 4 {
				v[r.Intn(4)] = 1
			}
			datas = append(datas, v)
		}
		datas = append(datas, nil, []byte{255, 255, 255, 255}, []byte{255, 255, 255, 127, 0, 0, 0, 0})
		for _, v := range datas {
			var in = append(append([]byte(nil), b...), v...)
			var ds = func() string { return desc() + "\ntype " + name + "\nobject " + hx(v) }
			bound(k, "size", in, ds, func() {
				var n, err = sc.Size(v)
				if err == nil && (n < 0 || n > len(v)) {
					k.Violate("size", ds(), "size of the object is %d, it has %d bytes", n, len(v))
				}
				if err == nil {
					k.Count("sizes_ok", 1)
				} else {
					k.Count("sizes_failed", 1)
				}
			})
			bound(k, "object", in, ds, func() {
				sc.HasReferences()
				_ = sc.String()
				var h, _ = pack.Add(v)
				use(k, pack, registry.Dynamic{Hash: h, Schema: sc.Reference()})
				k.Count("objects", 1)
			})
			if k.Bad() > 20 {
				return
			}
		}
	}
	_ = errTooMany
}

// objects: valid types, broken objects
func objects(k *kit.K, r *rand.Rand) {
	var s = regm.NewSet(r, regm.Cfg{Max: 4, Refs: r.Intn(3) > 0})
	var reg = s.Registry(s.Order())
	var p = regm.NewPack(reg)
	var hashes = []cipher.SHA256{{}, {1}}
	var schemas = []registry.SchemaRef{{}, {1}}
	for _, t := range s.Types {
		var sc, _ = reg.SchemaByName(t.Name)
		schemas = append(schemas, sc.Reference())
	}
	var refer = func(t *regm.T, v reflect.Value) {
		var h = hashes[r.Intn(len(hashes))]
		switch x := v.Addr().Interface().(type) {
		case *registry.Ref:
			x.Hash = h
		case *registry.Refs:
			x.Hash = h
		case *registry.Dynamic:
			x.Hash = h
			x.Schema = schemas[r.Intn(len(schemas))]
		}
	}
	var hist []string
	for i := 0; i < 8; i++ {
		if r.Intn(4) == 0 { // Refs
			var el []cipher.SHA256
			for j := r.Intn(4); j > 0; j-- {
				el = append(el, hashes[r.Intn(len(hashes))])
			}
			var b = encoder.Serialize(encRefs{uint32(r.Intn(2)), 2 + uint32(r.Intn(3)), uint32(len(el)) + uint32(r.Intn(2)), el})
			var h, _ = p.Add(b)
			hashes = append(hashes, h)
			hist = append(hist, "refs "+hx(b))
			continue
		}
		var t = s.Types[r.Intn(len(s.Types))]
		var v = t.New()
		t.Fill(r, v.Elem(), 0, refer)
		var b = regm.Enc(v.Interface())
		if r.Intn(3) == 0 {
			b = mutate(r, b)
		}
		if len(b) > 1000 {
			b = b[:1000]
		}
		var h, _ = p.Add(b)
		hashes = append(hashes, h)
		hist = append(hist, t.Name+" "+hx(b))
	}
	var desc = func() string { return s.String() + "\n" + strings.Join(hist, "\n") }
	for _, sc := range schemas {
		for _, h := range hashes {
			bound(k, "object", make([]byte, 20000), desc, func() {
				use(k, p, registry.Dynamic{Hash: h, Schema: sc})
			})
			bound(k, "ref", make([]byte, 20000), desc, func() {
				var schema, err = reg.SchemaByReference(sc)
				if err != nil {
					return
				}
				var n int
				var walk = func(cipher.SHA256, int) (bool, error) {
					if n++; n > 4000 {
						return false, registry.ErrStopIteration
					}
					return true, nil
				}
				(&registry.Ref{Hash: h}).Walk(&limited{Pack: p}, schema, walk)
				n = 0
				(&registry.Refs{Hash: h}).Walk(&limited{Pack: p}, schema, walk)
				var s = splitter{p: p, in: make(chan struct{}, 4)}
				(&registry.Refs{Hash: h}).Split(&s, schema)
				s.wg.Wait()
				s.err()
			})
		}
	}
	k.Count("objects", len(hashes))
	k.Case(true, desc())
}

func tryRoot(k *kit.K, r *rand.Rand) {
	var b []byte
	switch r.Intn(3) {
	case 0:
		b = make([]byte, r.Intn(400))
		r.Read(b)
	default:
		var rt registry.Root
		for i := r.Intn(5); i > 0; i-- {
			var d registry.Dynamic
			r.Read(d.Hash[:])
			r.Read(d.Schema[:])
			rt.Refs = append(rt.Refs, d)
		}
		rt.Descriptor = make([]byte, r.Intn(40))
		b = rt.Encode()
		if r.Intn(4) > 0 {
			b = mutate(r, b)
		}
	}
	var desc = func() string { return hx(b) }
	var ok bool
	bound(k, "root", b, desc, func() {
		var rt, err = registry.DecodeRoot(b)
		if (err == nil) != (rt != nil) {
			k.Violate("root", desc(), "root %v, error %v", rt, err)
		}
		if err != nil {
			k.Count("roots_refused", 1)
			return
		}
		ok = true
		k.Count("roots_accepted", 1)
		var p = regm.NewPack(registry.NewRegistry(func(*registry.Reg) {}))
		rt.Walk(p, func(cipher.SHA256, int) (bool, error) { return true, nil })
		rt.Tree(p)
		_ = rt.String() + rt.Short()
	})
	k.Case(ok, string(b))
}

//
// references
//

type encRefs struct {
	Depth    uint32
	Degree   uint32
	Length   uint32
	Elements []cipher.SHA256
}

type encNode struct {
	Length   uint32
	Elements []cipher.SHA256
}

func tryRefs(k *kit.K, r *rand.Rand) {
	var p = regm.NewPack(registry.NewRegistry(func(*registry.Reg) {}))
	p.Deg = registry.Degree(2 + r.Intn(4))
	p.Fl = registry.Flags(r.Intn(8))
	var hist []string
	var lie = []int{3, 10, 40}[r.Intn(3)]
	var liar = func(v uint32) uint32 {
		if r.Intn(lie) > 0 {
			return v
		}
		switch r.Intn(7) {
		case 0:
			return 1<<32 - 1
		case 1:
			return 1 << 31
		case 2:
			return v + 1
		case 3:
			return v - 1
		case 4:
			return 0
		case 5:
			return uint32(r.Intn(70))
		}
		return r.Uint32()
	}
	var hash = func() (h cipher.SHA256) {
		if r.Intn(6) > 0 {
			h[0] = byte(r.Intn(4))
			h[1] = 1
		}
		return
	}
	var deg = 2 + r.Intn(3)
	var pool []cipher.SHA256
	var node func(d int) ([]cipher.SHA256, uint32)
	node = func(d int) (els []cipher.SHA256, ln uint32) {
		var n = 1 + r.Intn(deg)
		if r.Intn(lie) == 0 {
			n = r.Intn(deg + 3)
		}
		for ; n > 0; n-- {
			if d == 0 {
				els = append(els, hash())
				ln++
				continue
			}
			if r.Intn(lie*2) == 0 {
				els = append(els, hash()) // is not stored
				continue
			}
			if len(pool) > 0 && r.Intn(4) == 0 {
				els = append(els, pool[r.Intn(len(pool))])
				ln += uint32(1 + r.Intn(deg))
				continue
			}
			var sub, sl = node(d - 1)
			sl = liar(sl)
			var b = encoder.Serialize(encNode{sl, sub})
			if r.Intn(lie*4) == 0 {
				b = mutate(r, b)
			}
			var h, _ = p.Add(b)
			els = append(els, h)
			pool = append(pool, h)
			ln += sl
		}
		return
	}
	var d = r.Intn(4)
	var els, ln = node(d)
	var er = encRefs{liar(uint32(d)), liar(uint32(deg)), liar(ln), els}
	var b = encoder.Serialize(er)
	if r.Intn(lie*2) == 0 {
		b = mutate(r, b)
	}
	var h, _ = p.Add(b)
	hist = append(hist, fmt.Sprintf("depth %d degree %d length %d elements %d (true depth %d, degree %d, length %d) flags %d", er.Depth, er.Degree,
		er.Length, len(els), d, deg, ln, p.Fl))
	var refs = registry.Refs{Hash: h}
	var op string
	var desc = func() string { return strings.Join(hist, "\n") }
	var bad = 0
	for i := 0; i < 8 && k.Bad() < 20; i++ {
		var err error
		var idx = r.Intn(10)
		switch r.Intn(4) {
		case 0:
			idx = r.Intn(100) - 5
		case 1:
			if ln > 0 {
				idx = int(ln) - 1
			}
		}
		var n int
		var iter = func(int, cipher.SHA256) error {
			if n++; n > 5000 {
				return registry.ErrStopIteration
			}
			return nil
		}
		var c = r.Intn(18)
		op = []string{"Len", "HashByIndex", "SetHashByIndex", "HasHash", "IndexOfHash", "IndicesByHash", "AppendHashes", "Append", "Slice", "DeleteByIndex",
			"DeleteByHash", "SetDegree", "Rebuild", "Ascend", "Descend", "Walk", "Tree", "AscendFrom"}[c]
		hist = append(hist, fmt.Sprint(op, " ", idx))
		bound(k, "refs", b, desc, func() {
			switch c {
			case 0:
				_, err = refs.Len(p)
			case 1:
				_, err = refs.HashByIndex(p, idx)
			case 2:
				err = refs.SetHashByIndex(p, idx, hash())
			case 3:
				_, err = refs.HasHash(p, hash())
			case 4:
				_, err = refs.IndexOfHash(p, hash())
			case 5:
				_, err = refs.IndicesByHash(p, hash())
			case 6:
				var hs []cipher.SHA256
				for j := 1 + r.Intn(10); j > 0; j-- {
					hs = append(hs, hash())
				}
				err = refs.AppendHashes(p, hs...)
			case 7:
				var o registry.Refs
				if err = o.AppendHashes(p, hash(), hash()); err == nil {
					if r.Intn(2) == 0 {
						err = refs.Append(p, &o)
					} else {
						err = o.Append(p, &refs)
					}
				}
			case 8:
				var l, _ = refs.Len(p)
				if l > 10000 {
					l = 10000
				}
				if l > 0 {
					idx = r.Intn(l)
				}
				_, err = refs.Slice(p, idx, l)
			case 9:
				err = refs.DeleteByIndex(p, idx)
			case 10:
				err = refs.DeleteByHash(p, hash())
			case 11:
				err = refs.SetDegree(p, registry.Degree(2+r.Intn(5)))
			case 12:
				err = refs.Rebuild(p)
			case 13:
				err = refs.Ascend(p, iter)
			case 14:
				err = refs.Descend(p, iter)
			case 15:
				err = refs.Walk(p, nil, func(_ cipher.SHA256, depth int) (bool, error) {
					if n++; n > 5000 {
						return false, registry.ErrStopIteration
					}
					return depth > 0, nil
				})
			case 16:
				_, err = refs.Tree(p, r.Intn(2) == 0)
			case 17:
				err = refs.AscendFrom(p, idx, iter)
			}
		})
		if err == nil {
			k.Count("refs_ok", 1)
			continue
		}
		k.Count("refs_failed", 1)
		bad++
		if err != registry.ErrNotFound && err != registry.ErrIndexOutOfRange && r.Intn(2) == 0 {
			refs.Reset()
			hist = append(hist, "Reset")
		}
	}
	k.Case(bad < 8, desc())
}
