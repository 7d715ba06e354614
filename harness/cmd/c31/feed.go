package main

import (
	"fmt"
	"math"
	"math/rand"
	"sync"
	"sync/atomic"

	"verif/graphm"
	"verif/kit"
	"verif/msgm"
	"verif/nodem"
	"verif/regm"

	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"
)

// Node of a bomb
type Node struct {
	A registry.Ref `skyobject:"schema=x.Node"`
	B registry.Ref `skyobject:"schema=x.Node"`
	N uint64
}

// a hostile feed
type feed struct {
	k      *kit.K
	pk     nodem.PK
	sk     cipher.SecKey
	shared atomic.Bool

	mx   sync.Mutex
	r    *rand.Rand
	s    *regm.Set
	reg  *registry.Registry
	breg *registry.Registry
	g    *graphm.G
	vals map[nodem.H][]byte
	seqs map[uint64]uint64
	bad  int
}

func newFeed(k *kit.K, r *rand.Rand, name string) (e *feed) {
	e = &feed{k: k, r: r, vals: make(map[nodem.H][]byte), seqs: make(map[uint64]uint64), bad: []int{0, 3, 20, 60}[r.Intn(4)]}
	e.pk, e.sk, _ = cipher.GenerateDeterministicKeyPair([]byte(fmt.Sprint(name, r.Int63())))
	e.s = regm.NewSet(r, regm.Cfg{Max: 4, Refs: true})
	e.reg = e.s.Registry(e.s.Order())
	e.breg = registry.NewRegistry(func(t *registry.Reg) { t.Register("x.Node", Node{}) })
	e.g = graphm.New(r, e.s, e.reg, func(v []byte) nodem.H {
		if e.bad > 0 && r.Intn(e.bad) == 0 {
			v = msgm.Mutate(r, v)
		}
		return e.put(v)
	})
	e.g.NoEmpty = true
	e.g.Max = 100
	e.put(e.reg.Encode())
	e.put(e.breg.Encode())
	return
}

func (e *feed) put(v []byte) (h nodem.H) {
	h = cipher.SumSHA256(v)
	e.vals[h] = v
	return
}

// Value of an object
func (e *feed) value(h nodem.H) (v []byte, ok bool) {
	e.mx.Lock()
	defer e.mx.Unlock()
	v, ok = e.vals[h]
	return
}

func (e *feed) all(m map[nodem.H]bool) {
	e.mx.Lock()
	defer e.mx.Unlock()
	for h := range e.vals {
		m[h] = true
	}
}

// next root
func (e *feed) next() *msg.Root {
	e.mx.Lock()
	defer e.mx.Unlock()
	var r = e.r
	var x = &registry.Root{Pub: e.pk, Nonce: uint64(r.Intn(5)), Reg: e.reg.Reference(), Time: int64(r.Intn(1000))}
	if r.Intn(10) == 0 {
		x.Nonce = r.Uint64()
	}
	x.Seq = e.seqs[x.Nonce]
	switch r.Intn(10) {
	case 0:
		x.Seq += uint64(r.Intn(5))
	case 1:
		x.Seq /= 2
	case 2:
		if r.Intn(4) == 0 {
			x.Seq = math.MaxUint64 - uint64(1+r.Intn(3))
		}
	}
	e.seqs[x.Nonce] = x.Seq + 1
	r.Read(x.Prev[:])
	if r.Intn(3) == 0 {
		x.Prev = nodem.H{}
	}
	if r.Intn(10) == 0 {
		x.Time = int64(r.Uint64())
	}
	var node, _ = e.breg.SchemaByName("x.Node")
	switch c := r.Intn(12); {
	case c == 0 && r.Intn(3) == 0: // bomb
		var h nodem.H
		for i := 20 + r.Intn(40); i > 0; i-- {
			h = e.put(encoder.Serialize(Node{A: registry.Ref{Hash: h}, B: registry.Ref{Hash: h}, N: uint64(i)}))
		}
		x.Reg = e.breg.Reference()
		x.Refs = []registry.Dynamic{{Hash: h, Schema: node.Reference()}}
		e.k.Count("bombs", 1)
	case c == 1: // a long chain
		var h nodem.H
		for i := 300 + r.Intn(3000); i > 0; i-- {
			h = e.put(encoder.Serialize(Node{A: registry.Ref{Hash: h}, N: uint64(i)}))
		}
		x.Reg = e.breg.Reference()
		x.Refs = []registry.Dynamic{{Hash: h, Schema: node.Reference()}}
	case c == 2: // registry
		switch r.Intn(4) {
		case 0:
			x.Reg = registry.RegistryRef{}
		case 1:
			r.Read(x.Reg[:])
		case 2:
			x.Reg = registry.RegistryRef(e.put(msgm.Mutate(r, e.reg.Encode())))
		case 3:
			x.Reg = registry.RegistryRef(e.put(msgm.Blob(r)))
		}
		fallthrough
	case c == 3: // random references
		for i := []int{1, 10, 1000}[r.Intn(3)]; i > 0; i-- {
			var d registry.Dynamic
			if r.Intn(3) > 0 {
				r.Read(d.Hash[:])
			}
			if r.Intn(3) > 0 {
				d.Schema = node.Reference()
			} else if r.Intn(2) == 0 {
				r.Read(d.Schema[:])
			}
			x.Refs = append(x.Refs, d)
		}
	default:
		for i := 1 + r.Intn(12); i > 0; i-- {
			e.g.Add()
		}
		for i := r.Intn(5); i > 0; i-- {
			var d, _ = e.g.Dynamic(e.g.Max)
			if e.bad > 0 && r.Intn(10) == 0 {
				d.Schema = node.Reference() // of other registry
			}
			x.Refs = append(x.Refs, d)
		}
	}
	if r.Intn(20) == 0 {
		r.Read(x.Pub[:])
	}
	var v = x.Encode()
	if r.Intn(15) == 0 {
		v = msgm.Mutate(r, v)
	}
	return e.sign(x, v)
}

func (e *feed) sign(x *registry.Root, v []byte) (m *msg.Root) {
	m = &msg.Root{Feed: e.pk, Nonce: x.Nonce, Seq: x.Seq, Value: v}
	m.Sig, _ = cipher.SignHash(e.put(v), e.sk)
	return
}
