// Package graphm generates graphs of objects together with the model of what
// is reachable from them. Trees of Refs are built here, not by the code that
// is tested.
package graphm

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"verif/regm"

	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"
)

// H is hash
type H = cipher.SHA256

// A Node is a visit of a walk: an object, or a node of Refs
type Node struct {
	Hash  H
	Depth int // zero for an object
	Kids  []*Node
	Size  int  // visits from here, with this one
	Read  bool // has to be read to walk deeper
}

func (n *Node) add(k *Node) {
	n.Kids = append(n.Kids, k)
	n.Size += k.Size
}

// Obj is an object
type Obj struct {
	T    *regm.T
	V    interface{}
	Node *Node
}

// G is a generator
type G struct {
	R    *rand.Rand
	Set  *regm.Set
	Reg  *registry.Registry
	Put  func(val []byte) H // store an object
	Objs []*Obj
	By   map[string][]*Obj // by type
	Max  int               // limit of visits of an object

	Deg func() int // degree of new Refs
	Gap bool       // nodes of Refs are not full

	NoEmpty bool // no objects of zero length, databases refuse them

	types map[H]string // one value is of one type
	Vals  map[H][]byte
	Desc  []string
}

// New generator
func New(r *rand.Rand, s *regm.Set, reg *registry.Registry, put func(val []byte) H) (g *G) {
	g = &G{R: r, Set: s, Reg: reg, Put: put, By: make(map[string][]*Obj), Max: 1500,
		types: make(map[H]string), Vals: make(map[H][]byte)}
	g.Deg = func() int { return 2 + r.Intn(5) }
	return
}

func (g *G) put(v []byte) (h H) {
	h = g.Put(v)
	g.Vals[h] = v
	return
}

func (g *G) pick(t string, max int) *Obj {
	if t == "" {
		if len(g.Objs) == 0 {
			return nil
		}
		var o = g.Objs[g.R.Intn(len(g.Objs))]
		if o.Node.Size > max {
			return nil
		}
		return o
	}
	var os = g.By[t]
	if len(os) == 0 {
		return nil
	}
	for i := 0; i < 3; i++ {
		if o := os[g.R.Intn(len(os))]; o.Node.Size <= max {
			return o
		}
	}
	return nil
}

// leaf visit of a blank reference
func blank(d int) *Node { return &Node{Depth: d, Size: 1} }

// Ref to a random object
func (g *G) Ref(to string, max int) (x registry.Ref, n *Node) {
	if o := g.pick(to, max); o != nil && g.R.Intn(8) > 0 {
		return registry.Ref{Hash: o.Node.Hash}, o.Node
	}
	return x, blank(0)
}

// Dynamic reference to a random object
func (g *G) Dynamic(max int) (x registry.Dynamic, n *Node) {
	switch o := g.pick("", max); {
	case g.R.Intn(8) == 0:
		var t = g.Set.Types[g.R.Intn(len(g.Set.Types))]
		x.Schema = g.schema(t)
	case o != nil:
		x.Schema = g.schema(o.T)
		x.Hash = o.Node.Hash
		return x, o.Node
	}
	return x, blank(0)
}

func (g *G) schema(t *regm.T) registry.SchemaRef {
	var sc, err = g.Reg.SchemaByName(t.Name)
	if err != nil {
		panic(err)
	}
	return sc.Reference()
}

type encRefs struct {
	Depth    uint32
	Degree   uint32
	Length   uint32
	Elements []H
}

type encNode struct {
	Length   uint32
	Elements []H
}

// Refs with n random elements
func (g *G) Refs(to string, n, max int) (x registry.Refs, root *Node) {
	var els []*Node
	for i := 0; i < n; i++ {
		var o = g.pick(to, max)
		if o == nil || g.R.Intn(8) == 0 {
			els = append(els, blank(0))
			continue
		}
		max -= o.Node.Size
		els = append(els, o.Node)
	}
	return g.RefsOf(els)
}

// RefsOf elements
func (g *G) RefsOf(els []*Node) (x registry.Refs, root *Node) {
	if len(els) == 0 {
		return x, blank(1)
	}
	var deg, dep, n = g.Deg(), 0, len(els)
	var gap = g.Gap && g.R.Intn(3) == 0
	// levels of nodes, from the lowest
	var level = els
	var lens []int
	for range els {
		lens = append(lens, 1)
	}
	for len(level) > deg {
		var up []*Node
		var ul []int
		for len(level) > 0 {
			var m = deg
			if gap && len(up) < 40 {
				m = 1 + g.R.Intn(deg)
				if m == 1 && g.R.Intn(3) > 0 {
					m = deg
				}
			}
			if m > len(level) {
				m = len(level)
			}
			var nd = &Node{Depth: dep + 1, Size: 1, Read: true}
			var en encNode
			for i := 0; i < m; i++ {
				nd.add(level[i])
				en.Elements = append(en.Elements, level[i].Hash)
				en.Length += uint32(lens[i])
			}
			nd.Hash = g.put(encoder.Serialize(en))
			up, ul = append(up, nd), append(ul, int(en.Length))
			level, lens = level[m:], lens[m:]
		}
		level, lens = up, ul
		dep++
	}
	root = &Node{Depth: dep + 1, Size: 1, Read: true}
	var er = encRefs{Depth: uint32(dep), Degree: uint32(deg), Length: uint32(n)}
	for _, k := range level {
		root.add(k)
		er.Elements = append(er.Elements, k.Hash)
	}
	root.Hash = g.put(encoder.Serialize(er))
	x.Hash = root.Hash
	return
}

// Add an object of random type
func (g *G) Add() *Obj { return g.AddOf(g.Set.Types[g.R.Intn(len(g.Set.Types))]) }

// AddOf type, it returns nil if it's not possible
func (g *G) AddOf(t *regm.T) (o *Obj) {
	for i := 0; i < 4; i++ {
		o = &Obj{T: t}
		var n = &Node{Size: 1, Read: t.HasRefs()}
		var v = t.New()
		t.Fill(g.R, v.Elem(), 0, func(t *regm.T, v reflect.Value) {
			var k *Node
			var max = g.Max - n.Size
			switch x := v.Addr().Interface().(type) {
			case *registry.Ref:
				*x, k = g.Ref(t.To, max)
			case *registry.Refs:
				var l = g.R.Intn(5)
				if g.R.Intn(10) == 0 {
					l = g.R.Intn(40)
				}
				*x, k = g.Refs(t.To, l, max)
			case *registry.Dynamic:
				*x, k = g.Dynamic(max)
			}
			n.add(k)
		})
		var b = regm.Enc(v.Interface())
		if len(b) == 0 && g.NoEmpty {
			continue
		}
		var h = cipher.SumSHA256(b)
		if was, ok := g.types[h]; ok && was != t.Name {
			continue
		}
		g.types[h] = t.Name
		n.Hash = h
		g.put(b)
		o.V, o.Node = v.Interface(), n
		g.Objs = append(g.Objs, o)
		g.By[t.Name] = append(g.By[t.Name], o)
		if len(g.Desc) < 200 {
			var ks []string
			for _, k := range n.Kids {
				ks = append(ks, fmt.Sprintf("%s/%d", k.Hash.Hex()[:6], k.Depth))
			}
			g.Desc = append(g.Desc, fmt.Sprintf("object %s of %s: %s", h.Hex()[:6], t.Name, strings.Join(ks, " ")))
		}
		return
	}
	return nil
}

func (g *G) String() string {
	return g.Set.String() + "\n" + strings.Join(g.Desc, "\n")
}

// Key of a visit
type Key struct {
	Hash  H
	Depth int
}

// Visits counts visits from the nodes; it does not go below refused
// hashes (the refused ones are visited)
func Visits(ns []*Node, refuse map[H]bool) (m map[Key]int, parents map[Key]map[Key]bool, read map[H]bool) {
	m = make(map[Key]int)
	parents = make(map[Key]map[Key]bool)
	read = make(map[H]bool)
	var walk func(n *Node, up *Node)
	walk = func(n *Node, up *Node) {
		var k = Key{n.Hash, n.Depth}
		m[k]++
		if parents[k] == nil {
			parents[k] = make(map[Key]bool)
		}
		if up != nil {
			parents[k][Key{up.Hash, up.Depth}] = true
		} else {
			parents[k][Key{}] = true // a top
		}
		if refuse[n.Hash] || n.Hash == (H{}) {
			return
		}
		if n.Read {
			read[n.Hash] = true
		}
		for _, x := range n.Kids {
			walk(x, n)
		}
	}
	for _, n := range ns {
		walk(n, nil)
	}
	return
}

// Reach returns all hashes (but blank) reachable from the nodes
func Reach(ns []*Node) (m map[H]bool) {
	m = make(map[H]bool)
	var walk func(n *Node)
	walk = func(n *Node) {
		if n.Hash == (H{}) || m[n.Hash] {
			return
		}
		m[n.Hash] = true
		for _, x := range n.Kids {
			walk(x)
		}
	}
	for _, n := range ns {
		walk(n)
	}
	return
}
