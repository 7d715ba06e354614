// C36: printed trees
package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/graphm"
	"verif/kit"
	"verif/refsm"
	"verif/regm"

	gotree "github.com/DiSiqueira/GoTree"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

type H = cipher.SHA256

func main() {
	kit.Main("C36", kit.Opts{
		Rule: "random types and graphs of objects (shared objects, blank references, lists of some levels, nested arrays, slices and structs) are printed, some objects are missing or can't be read; " +
			"the printed tree is compared node by node with the values the graph was made of; lists are printed after random changes, loaded and not; " +
			"non-trivial with three printed objects or more; distinct by the content",
		Need:     []string{"roots", "empty_roots", "objects", "fields", "values", "nils", "missing", "lists", "nested_lists", "broken_lists", "list_changed", "list_not_loaded", "list_branches"},
		MinCases: 1000,
		Watchdog: 14 * time.Minute,
	}, run)
}

func run(k *kit.K) {
	var seen *gotree.GTStructure
	gotree.Observe = func(o *gotree.GTStructure) { seen = o }
	for i := 0; i < k.N(3000, 120000) && k.Bad() < 20; i++ {
		k.Within("hang", fmt.Sprint("graph ", i), time.Minute, func() { graph(k, k.Rng("graph", i), &seen) })
	}
	for i := 0; i < k.N(3000, 120000) && k.Bad() < 20; i++ {
		k.Within("hang", fmt.Sprint("list ", i), time.Minute, func() { list(k, k.Rng("list", i), &seen) })
	}
}

func short(h H) string { return h.Hex()[:7] }

type test struct {
	k    *kit.K
	g    *graphm.G
	p    *regm.Pack
	by   map[string]*regm.T
	objs map[H]*graphm.Obj
	nobj int
	why  string
	lost bool // an object in use is lost
}

func graph(k *kit.K, r *rand.Rand, seen **gotree.GTStructure) {
	var s = regm.NewSet(r, regm.Cfg{Max: 5, Refs: r.Intn(4) > 0})
	var reg = s.Registry(s.Order())
	if r.Intn(2) == 0 {
		var err error
		if reg, err = registry.DecodeRegistry(reg.Encode()); err != nil {
			k.Violate("decode", s.String(), "%v", err)
			return
		}
	}
	var p = regm.NewPack(reg)
	p.Fl = registry.Flags(r.Intn(8))
	var t = &test{k: k, p: p, by: make(map[string]*regm.T), objs: make(map[H]*graphm.Obj)}
	t.g = graphm.New(r, s, reg, func(b []byte) H { var h, _ = p.Add(b); return h })
	t.g.Gap = true
	t.g.NoEmpty = true
	t.g.Max = 400
	for i := 1 + r.Intn(25); i > 0; i-- {
		t.g.Add()
	}
	if len(t.g.Objs) == 0 {
		return
	}
	for _, o := range t.g.Objs {
		t.objs[o.Node.Hash] = o
	}
	var rt registry.Root
	var nodes []*graphm.Node
	for j := r.Intn(5); j > 0; j-- {
		var d, n = t.g.Dynamic(600)
		rt.Refs = append(rt.Refs, d)
		nodes = append(nodes, n)
	}
	rt.Pub, _ = cipher.GenerateKeyPair()
	rt.Nonce, rt.Seq = r.Uint64()>>uint(r.Intn(64)), uint64(r.Intn(1000))
	r.Read(rt.Hash[:])
	rt.Reg = reg.Reference()
	if r.Intn(3) == 0 { // some are missing
		var hs []H
		for h := range graphm.Reach(nodes) {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i].Hex() < hs[j].Hex() })
		for j := 1 + r.Intn(2); j > 0 && len(hs) > 0; j-- {
			p.Broken[hs[r.Intn(len(hs))]] = regm.ErrMissing
			t.lost = true
		}
	}
	var before = len(p.M)
	p.Sets = 0
	var tree string
	var err error
	*seen = nil
	if !k.Guard("panic", t.g.String(), func() { tree, err = rt.Tree(p) }) {
		return
	}
	k.Count("roots", 1)
	if err != nil || *seen == nil {
		k.Violate("tree", t.g.String(), "can't be printed: %v", err)
		return
	}
	var it = *seen
	if p.Sets != 0 || len(p.M) != before {
		k.Violate("written", t.g.String(), "printing wrote %d objects", p.Sets)
		return
	}
	if tree != gotree.StringTree(it) {
		k.Violate("tree", t.g.String(), "the text is not the tree")
		return
	}
	var nonce = strconv.FormatUint(rt.Nonce, 10)
	if len(nonce) > 4 {
		nonce = nonce[:4]
	}
	for _, s := range []string{short(rt.Hash), rt.Pub.Hex()[:7], fmt.Sprintf("/%s/%d", nonce, rt.Seq), rt.Reg.Short()} {
		if !strings.Contains(it.Name, s) {
			k.Violate("root", t.g.String(), "%q has no %q", it.Name, s)
			return
		}
	}
	var ok = true
	if len(rt.Refs) == 0 {
		k.Count("empty_roots", 1)
		ok = len(it.Items) <= 1 && (len(it.Items) == 0 || len(it.Items[0].Items) == 0)
	} else if ok = len(it.Items) == len(rt.Refs); ok {
		for i, d := range rt.Refs {
			if ok = t.dynamic(it.Items[i], it.Items[i].Name, d, nodes[i]); !ok {
				t.why = fmt.Sprintf("reference %d of the root: %s", i, t.why)
				break
			}
		}
	} else {
		t.why = fmt.Sprintf("%d references, want %d", len(it.Items), len(rt.Refs))
	}
	if !ok {
		k.Violate("content", t.g.String()+"\n"+tree, "%s", t.why)
	}
	k.Case(t.nobj > 2, fmt.Sprint(nodes == nil, t.g.String(), rt.Refs))
}

func (t *test) bad(f string, a ...interface{}) bool {
	t.why = fmt.Sprintf(f, a...)
	return false
}

func isErr(s string) bool { return strings.Contains(s, "err") }

func (t *test) dynamic(it *gotree.GTStructure, name string, d registry.Dynamic, n *graphm.Node) bool {
	if d.Hash == (H{}) {
		t.k.Count("nils", 1)
		if !strings.Contains(name, "nil") || len(it.Items) > 0 {
			return t.bad("%q with %d items, must be nil", name, len(it.Items))
		}
		return true
	}
	return t.ref(it, name, d.Hash, n)
}

// a reference that is not blank
func (t *test) ref(it *gotree.GTStructure, name string, h H, n *graphm.Node) bool {
	if !strings.Contains(name, short(h)) || len(it.Items) != 1 {
		return t.bad("%q with %d items, must refer to %s", name, len(it.Items), short(h))
	}
	return t.object(it.Items[0], h, n)
}

func (t *test) object(it *gotree.GTStructure, h H, n *graphm.Node) bool {
	if t.p.Broken[h] != nil {
		t.k.Count("missing", 1)
		if !isErr(it.Name) || !strings.Contains(it.Name, regm.ErrMissing.Error()) || len(it.Items) > 0 {
			return t.bad("%q with %d items, must be an error: %s is missing", it.Name, len(it.Items), short(h))
		}
		return true
	}
	var o = t.objs[h]
	if o == nil || o.Node.Hash != n.Hash {
		panic("harness: unknown object")
	}
	t.nobj++
	t.k.Count("objects", 1)
	if !strings.Contains(it.Name, o.T.Name) {
		return t.bad("%q, must be of %q", it.Name, o.T.Name)
	}
	var kids = n.Kids
	if !t.value(it, it.Name, o.T, reflect.ValueOf(o.V).Elem(), &kids) {
		t.why = fmt.Sprintf("object %s of %s: %s", short(h), o.T.Name, t.why)
		return false
	}
	return true
}

// number the word is
func number(word string, v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Bool:
		return word == fmt.Sprint(v.Bool())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		var x, err = strconv.ParseInt(word, 10, 64)
		return err == nil && x == v.Int()
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		var x, err = strconv.ParseUint(word, 10, 64)
		return err == nil && x == v.Uint()
	case reflect.Float32:
		var x, err = strconv.ParseFloat(word, 32)
		return err == nil && (float32(x) == float32(v.Float()) || math.IsNaN(x) && math.IsNaN(v.Float()))
	}
	var x, err = strconv.ParseFloat(word, 64)
	return err == nil && (x == v.Float() || math.IsNaN(x) && math.IsNaN(v.Float()))
}

// the kids are the references of the object in their order
func (t *test) value(it *gotree.GTStructure, name string, ty *regm.T, v reflect.Value, kids *[]*graphm.Node) bool {
	var next = func() (n *graphm.Node) { n, *kids = (*kids)[0], (*kids)[1:]; return }
	switch x := v.Interface().(type) {
	case registry.Dynamic:
		return t.dynamic(it, name, x, next())
	case registry.Ref:
		var n = next()
		if x.Hash == (H{}) {
			t.k.Count("nils", 1)
			if !strings.Contains(name, "nil") || len(it.Items) > 0 {
				return t.bad("%q with %d items, must be nil", name, len(it.Items))
			}
			return true
		}
		if !strings.Contains(name, ty.To) {
			return t.bad("%q, must be a reference to %q", name, ty.To)
		}
		return t.ref(it, name, x.Hash, n)
	case registry.Refs:
		return t.refs(it, name, ty, x.Hash, next())
	}
	if len(regm.Enc(v.Interface())) == 0 {
		return len(it.Items) == 0 || t.bad("%q has %d items, it's empty", name, len(it.Items))
	}
	switch ty.Kind {
	case reflect.Struct:
		var i int
		for j, f := range ty.Fields {
			if f.Skip {
				continue
			}
			if i >= len(it.Items) {
				return t.bad("%q has %d fields, field %q is not there", name, len(it.Items), f.Name)
			}
			var fi = it.Items[i]
			i++
			if !strings.HasPrefix(fi.Name, f.Name+": ") {
				return t.bad("%q has field %q, must be %q", name, fi.Name, f.Name)
			}
			t.k.Count("fields", 1)
			if !t.value(fi, strings.TrimPrefix(fi.Name, f.Name+": "), f.T, v.Field(j), kids) {
				t.why = f.Name + ": " + t.why
				return false
			}
		}
		return i == len(it.Items) || t.bad("%q has %d fields, must be %d", name, len(it.Items), i)
	case reflect.Slice, reflect.Array:
		if ty.Kind == reflect.Slice && ty.Elem.Kind == reflect.Uint8 {
			return strings.HasSuffix(name, " "+hex.EncodeToString(v.Bytes())) && len(it.Items) == 0 ||
				t.bad("%q with %d items, must be %x", name, len(it.Items), v.Bytes())
		}
		if !strings.Contains(name, fmt.Sprint(v.Len())) {
			return t.bad("%q has no length %d", name, v.Len())
		}
		if v.Len() > 0 && len(regm.Enc(v.Index(0).Interface())) == 0 {
			return len(it.Items) == 0 || len(it.Items) == v.Len() || t.bad("%q with %d items", name, len(it.Items))
		}
		if len(it.Items) != v.Len() {
			return t.bad("%q has %d items, must be %d", name, len(it.Items), v.Len())
		}
		for i := range it.Items {
			if !t.value(it.Items[i], it.Items[i].Name, ty.Elem, v.Index(i), kids) {
				t.why = fmt.Sprintf("[%d]: %s", i, t.why)
				return false
			}
		}
		return true
	case reflect.String:
		t.k.Count("values", 1)
		return (name == v.String() || strings.HasPrefix(name, v.String()+" (")) && len(it.Items) == 0 || t.bad("%q, must be %q", name, v.String())
	}
	t.k.Count("values", 1)
	return number(strings.SplitN(name, " ", 2)[0], v) && len(it.Items) == 0 || t.bad("%q, must be %v", name, v)
}

// leafs of a list; it's not whole if a node is missing
func (t *test) leafs(n *graphm.Node, ls *[]*graphm.Node) bool {
	if n.Depth == 0 {
		*ls = append(*ls, n)
		return true
	}
	if t.p.Broken[n.Hash] != nil {
		return false
	}
	for _, x := range n.Kids {
		if !t.leafs(x, ls) {
			return false
		}
	}
	return true
}

func (t *test) refs(it *gotree.GTStructure, name string, ty *regm.T, h H, n *graphm.Node) bool {
	var ls []*graphm.Node
	var whole = true
	if h != (H{}) {
		whole = t.leafs(n, &ls)
	}
	if !strings.Contains(name, ty.To) || !strings.Contains(name, short(h)) {
		return t.bad("%q, must be list %s of %q", name, short(h), ty.To)
	}
	if !whole && t.p.Broken[n.Hash] != nil {
		t.k.Count("broken_lists", 1)
		return isErr(name) && len(it.Items) == 0 || t.bad("%q with %d items, the list is missing", name, len(it.Items))
	}
	if whole {
		if len(ls) > 0 && !strings.Contains(name, fmt.Sprint("length: ", len(ls))) {
			return t.bad("%q, length must be %d", name, len(ls))
		}
		if len(it.Items) != len(ls) {
			return t.bad("%q has %d elements, must be %d", name, len(it.Items), len(ls))
		}
		t.k.Count("lists", 1)
		for _, x := range n.Kids {
			if x.Depth > 0 {
				t.k.Count("nested_lists", 1)
				break
			}
		}
	} else {
		t.k.Count("broken_lists", 1)
		if isErr(name) && len(it.Items) == 0 && t.p.Fl&(registry.EntireRefs|registry.HashTableIndex) != 0 {
			return true // the whole list is loaded first
		}
		if l := len(it.Items); l == 0 || l > len(ls)+1 || !isErr(it.Items[l-1].Name) {
			return t.bad("%q has %d elements, a node of it is missing after %d ones", name, l, len(ls))
		}
		ls = ls[:len(it.Items)-1]
	}
	for i, x := range ls {
		var e = it.Items[i]
		if x.Hash == (H{}) {
			t.k.Count("nils", 1)
			if e.Name != "nil" || len(e.Items) > 0 {
				return t.bad("element %d is %q, must be nil", i, e.Name)
			}
			continue
		}
		if !t.object(e, x.Hash, x) {
			t.why = fmt.Sprintf("element %d: %s", i, t.why)
			return false
		}
	}
	return true
}

// list prints a list that is changed
func list(k *kit.K, r *rand.Rand, seen **gotree.GTStructure) {
	var e = refsm.NewE(r, 6)
	e.SetPack()
	var l = e.New()
	for i := r.Intn(20); i > 0 && e.Failed() == nil; i-- {
		l.Op()
	}
	if e.Failed() != nil {
		return // of C14
	}
	var x = l.R
	var stored = r.Intn(3) == 0
	if stored { // other one, not loaded
		if l.R.Flags()&registry.LazyUpdating != 0 {
			stored = false
		} else {
			x = &registry.Refs{Hash: l.R.Hash}
		}
	} else if len(l.M) > 0 {
		k.Count("list_changed", 1)
	}
	for _, force := range []bool{false, true, false} {
		if !printed(k, e, x, l.M, force, seen) {
			return
		}
	}
	if _, err := x.Len(e.P); err != nil {
		k.Violate("list", e.Case(), "printing breaks the list: %v", err)
		return
	}
	var els []H
	if err := x.Ascend(e.P, func(_ int, h H) error { els = append(els, h); return nil }); err != nil || fmt.Sprint(els) != fmt.Sprint(l.M) {
		k.Violate("list", e.Case(), "after printing elements are %v (%v), want %v", els, err, l.M)
	}
	k.Case(len(l.M) > 2, e.Case())
}

func printed(k *kit.K, e *refsm.E, x *registry.Refs, m []H, force bool, seen **gotree.GTStructure) bool {
	var tree string
	var err error
	*seen = nil
	var hash = x.Hash
	if !k.Guard("list-panic", e.Case(), func() { tree, err = x.Tree(e.P, force) }) {
		return false
	}
	if err != nil || *seen == nil {
		k.Violate("list", e.Case(), "can't be printed: %v", err)
		return false
	}
	if x.Hash != hash {
		k.Violate("list", e.Case(), "printing changes the hash")
		return false
	}
	var it = *seen
	var pos int
	var full = !strings.Contains(tree, "not loaded")
	if !full {
		k.Count("list_not_loaded", 1)
		if force {
			k.Violate("list", e.Case()+"\n"+tree, "something is not loaded")
			return false
		}
	}
	if !strings.Contains(it.Name, short(x.Hash)) {
		k.Violate("list", e.Case()+"\n"+tree, "%q has no hash %s", it.Name, short(x.Hash))
		return false
	}
	var length = func(n int) string {
		if strings.Contains(it.Name, "not loaded") {
			return ""
		}
		return fmt.Sprintf("length: %d,", n)
	}
	if !strings.Contains(it.Name, length(len(m))) {
		k.Violate("list", e.Case()+"\n"+tree, "%q must have length %d", it.Name, len(m))
		return false
	}
	if len(m) == 0 {
		return len(it.Items) <= 1
	}
	// the leafs
	var walk func(is []*gotree.GTStructure) (int, string)
	walk = func(is []*gotree.GTStructure) (n int, why string) {
		for _, i := range is {
			if strings.Contains(i.Name, "not loaded") {
				if len(i.Items) > 0 {
					return n, "items of a not loaded node"
				}
				pos = -1
				continue
			}
			var w = strings.Split(i.Name, " ")
			if len(w) > 1 {
				k.Count("list_branches", 1)
				var j, why = walk(i.Items)
				if why != "" {
					return n, why
				}
				if pos >= 0 && w[1] != fmt.Sprint(j) {
					return n, fmt.Sprintf("node %q has %d elements", i.Name, j)
				}
				n += j
				continue
			}
			n++
			if pos < 0 { // an unknown part is before it
				var ok bool
				for _, h := range m {
					ok = ok || short(h) == i.Name
				}
				if !ok {
					return n, fmt.Sprintf("%q is not in the list", i.Name)
				}
				continue
			}
			if pos >= len(m) || short(m[pos]) != i.Name {
				return n, fmt.Sprintf("element %d is %q, elements must be %v", pos, i.Name, m)
			}
			pos++
		}
		return
	}
	var n, why = walk(it.Items)
	if why == "" && full && n != len(m) {
		why = fmt.Sprintf("%d elements, must be %d", n, len(m))
	}
	if why != "" {
		k.Violate("list", e.Case()+"\n"+tree, "%s", why)
		return false
	}
	return true
}
