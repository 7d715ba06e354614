// C11: registries survive encoding and identify themselves.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"

	"verif/kit"
	"verif/regm"
)

func main() {
	kit.Main("C11", kit.Opts{
		Rule: "random sets of Go types made with reflect (nested and inline " +
			"structs, arrays, slices, named types, references of all kinds, " +
			"skipped fields), registered in random orders; registries and " +
			"their decoded copies are compared with the model of the types; " +
			"values are written with one and read with the other; " +
			"non-trivial if the set has references, distinct by the types",
		MinCases: 100,
		Need: []string{"schemas", "orders", "variants", "values",
			"schemas_with_references"},
	}, run)
}

func run(k *kit.K) {
	for i := 0; i < k.N(3000, 60000); i++ {
		k.Within("hang", fmt.Sprint(i), time.Minute, func() { set(k, i) })
	}
	tags(k)
	misuse(k)
}

func set(k *kit.K, n int) {
	var (
		r   = k.Rng("set", n)
		s   = regm.NewSet(r, regm.Cfg{Max: 7})
		cas = s.String()
		reg *registry.Registry
	)
	var refs bool
	for _, t := range s.Types {
		refs = refs || t.HasRefs()
	}
	k.Case(refs, cas)
	k.Sample(cas)
	k.Guard("panic", cas, func() {
		reg = s.Registry(s.Order())
		var enc = reg.Encode()
		if h := registry.RegistryRef(cipher.SumSHA256(enc)); reg.Reference() != h {
			k.Violate("reference", cas, "reference is %s, want hash of the encoded registry %s", reg.Reference(), h)
		}
		var dec, err = registry.DecodeRegistry(enc)
		if err != nil {
			k.Violate("decode", cas, "encoded registry is refused: %v", err)
			return
		}
		if dec.Reference() != reg.Reference() {
			k.Violate("reference", cas, "the decoded has another reference")
		}
		if !bytes.Equal(dec.Encode(), enc) {
			k.Violate("encode", cas, "the decoded encodes to other bytes")
		}
		var srefs = map[registry.SchemaRef]string{}
		for _, t := range s.Types {
			k.Count("schemas", 1)
			if t.HasRefs() {
				k.Count("schemas_with_references", 1)
			}
			var both [2]registry.Schema
			for i, x := range []*registry.Registry{reg, dec} {
				var sc, err = x.SchemaByName(t.Name)
				if err != nil {
					k.Violate("by_name", cas, "%s is missing (decoded: %t): %v", t.Name, i == 1, err)
					return
				}
				if err = regm.CompareSchema(sc, t, s.By); err != nil {
					k.Violate("schema", cas, "(decoded: %t) %v", i == 1, err)
				}
				both[i] = sc
			}
			if both[0].Reference() != both[1].Reference() {
				k.Violate("schema_ref", cas, "reference of %s changed by decoding", t.Name)
			}
			if o, ok := srefs[both[0].Reference()]; ok {
				k.Violate("schema_ref", cas, "%s and %s have the same reference", t.Name, o)
			}
			srefs[both[0].Reference()] = t.Name
			if both[0].Reference() != registry.SchemaRef(cipher.SumSHA256(both[0].Encode())) {
				k.Violate("schema_ref", cas, "reference of %s is not hash of the encoded", t.Name)
			}
			for i, x := range []*registry.Registry{reg, dec} {
				var sc, err = x.SchemaByReference(both[0].Reference())
				if err != nil || sc.Name() != t.Name {
					k.Violate("by_ref", cas, "%s by its reference (decoded: %t): %v, %v", t.Name, i == 1, sc, err)
				}
			}
			// types
			var ts = reg.Types()
			if ts.Direct[t.Name] != t.Go || ts.Inverse[t.Go] != t.Name {
				k.Violate("types", cas, "wrong types of %s: %v, %q", t.Name, ts.Direct[t.Name], ts.Inverse[t.Go])
			}
			for _, v := range []interface{}{t.New().Interface(), t.New().Elem().Interface()} {
				if nm, err := ts.SchemaName(v); err != nil || nm != t.Name {
					k.Violate("types", cas, "SchemaName of %T is %q, %v", v, nm, err)
				}
			}
			values(k, r, cas, t, both, reg, dec)
		}
		if ts := reg.Types(); len(ts.Direct) != len(s.Types) || len(ts.Inverse) != len(s.Types) {
			k.Violate("types", cas, "%d, %d types", len(ts.Direct), len(ts.Inverse))
		}
		if ts := dec.Types(); len(ts.Direct) != 0 || len(ts.Inverse) != 0 {
			k.Violate("types", cas, "decoded registry has types")
		} else if _, err := ts.SchemaName(1); err == nil {
			k.Violate("types", cas, "SchemaName of unknown type")
		}
		if _, err := dec.SchemaByName("nope"); err == nil {
			k.Violate("by_name", cas, "schema that is not registered")
		}
		if _, err := dec.SchemaByReference(registry.SchemaRef{1}); err == nil {
			k.Violate("by_ref", cas, "schema that is not registered")
		}
		// orders
		for i := 0; i < 3; i++ {
			var o = r.Perm(len(s.Types))
			k.Count("orders", 1)
			var x = s.Registry(o)
			if x.Reference() != reg.Reference() || !bytes.Equal(x.Encode(), enc) {
				k.Violate("order", cas, "reference depends on the order of registration %v", o)
			}
		}
		for i := 0; i < 3; i++ {
			variant(k, r, cas, s, reg)
		}
	})
}

// a value written with one registry is read with another
func values(k *kit.K, r *rand.Rand, cas string, t *regm.T,
	scs [2]registry.Schema, reg, dec *registry.Registry) {
	var (
		pk = regm.NewPack(reg)
		v  = t.New()
		dr registry.Dynamic
	)
	t.Fill(r, v.Elem(), 0, regm.RandomRefs(r))
	dr.Schema = scs[0].Reference()
	if err := dr.SetValue(pk, v.Interface()); err != nil {
		k.Violate("value", cas, "SetValue: %v", err)
		return
	}
	k.Count("values", 1)
	pk.Reg = dec
	var sc, err = pk.Registry().SchemaByReference(dr.Schema)
	if err != nil {
		k.Violate("value", cas, "schema of %s: %v", t.Name, err)
		return
	}
	var val, _ = pk.Get(dr.Hash)
	if sz, err := sc.Size(val); err != nil || sz != len(val) {
		k.Violate("value", cas, "%s is encoded to %d bytes, Size is %d, %v", t.Name, len(val), sz, err)
	}
	var w = t.New()
	if err := dr.Value(pk, w.Interface()); err != nil {
		k.Violate("value", cas, "Value: %v", err)
	} else if !bytes.Equal(encoder.Serialize(w.Interface()), val) {
		k.Violate("value", cas, "value of %s changed", t.Name)
	}
}

// a set with one difference has another reference
func variant(k *kit.K, r *rand.Rand, cas string, s *regm.Set, reg *registry.Registry) {
	var n = 1 + r.Intn(3)
	var what string
	var x *registry.Registry
	switch n {
	case 1: // one type less
		if len(s.Types) == 1 {
			return
		}
		// types nobody needs
		var i = r.Intn(len(s.Types))
		if needed(s, s.Types[i].Name) {
			return
		}
		what = "without " + s.Types[i].Name
		var o = append([]int{}, s.Order()...)
		o = append(o[:i], o[i+1:]...)
		x = s.Registry(o)
	case 2: // one more
		type extra struct{ X uint32 }
		what = "with one more"
		x = registry.NewRegistry(func(t *registry.Reg) {
			for _, y := range s.Types {
				t.Register(y.Name, y.New().Interface())
			}
			t.Register("extra", extra{})
		})
	case 3: // a field changed
		var i = r.Intn(len(s.Types))
		if needed(s, s.Types[i].Name) {
			return
		}
		var t = *s.Types[i]
		var fs []reflect.StructField
		for j := 0; j < t.Go.NumField(); j++ {
			fs = append(fs, t.Go.Field(j))
		}
		switch m := r.Intn(5); {
		case m == 0 || len(fs) == 0:
			what = "a field appended"
			fs = append(fs, reflect.StructField{Name: "New", Type: reflect.TypeOf(int8(0))})
		case m == 1:
			what = "a field renamed"
			for j := range fs {
				if !strings.Contains(string(fs[j].Tag), `enc:`) {
					fs[j].Name += "x"
				}
			}
		case m == 2:
			what = "tags changed"
			for j := range fs {
				fs[j].Tag += ` new:"x"`
			}
		case m == 3:
			what = "fields reversed"
			for a, b := 0, len(fs)-1; a < b; a, b = a+1, b-1 {
				fs[a], fs[b] = fs[b], fs[a]
			}
		case m == 4:
			what = "type of a field changed"
			for j := range fs {
				if fs[j].Type.Kind() == reflect.Uint32 {
					fs[j].Type = reflect.TypeOf(int32(0))
				} else if fs[j].Type.Kind() == reflect.Array {
					fs[j].Type = reflect.ArrayOf(fs[j].Type.Len()+1, fs[j].Type.Elem())
				} else if fs[j].Type.Kind() == reflect.Slice {
					fs[j].Type = reflect.SliceOf(fs[j].Type)
				}
			}
		}
		var g = reflect.StructOf(fs)
		if encodedFields(g) == encodedFields(t.Go) {
			return // the same
		}
		x = registry.NewRegistry(func(rg *registry.Reg) {
			for j, y := range s.Types {
				if j == i {
					rg.Register(y.Name, reflect.New(g).Interface())
				} else {
					rg.Register(y.Name, y.New().Interface())
				}
			}
		})
	}
	k.Count("variants", 1)
	if x.Reference() == reg.Reference() {
		k.Violate("unique", cas, "registry %s has the same reference", what)
	}
}

func encodedFields(g reflect.Type) string {
	var ss []string
	for i := 0; i < g.NumField(); i++ {
		var f = g.Field(i)
		if f.Tag.Get("enc") == "-" {
			continue
		}
		ss = append(ss, fmt.Sprintf("%s %s %q", f.Name, f.Type, f.Tag))
	}
	return strings.Join(ss, ";")
}

func needed(s *regm.Set, name string) bool {
	var in func(t *regm.T) bool
	in = func(t *regm.T) bool {
		if t.Name == name || t.To == name {
			return true
		}
		if t.Elem != nil && in(t.Elem) {
			return true
		}
		for _, f := range t.Fields {
			if in(f.T) {
				return true
			}
		}
		return false
	}
	for _, t := range s.Types {
		if t.Name == name {
			if t.To == name {
				return true
			}
			for _, f := range t.Fields {
				if in(f.T) {
					return true
				}
			}
		} else if in(t) {
			return true
		}
	}
	return false
}

// TagSchemaName
func tags(k *kit.K) {
	for _, x := range []struct{ tag, want string }{
		{`skyobject:"schema=User"`, "User"},
		{`json:"a" skyobject:"schema=a.b"`, "a.b"},
		{`skyobject:"x,schema=User"`, "User"},
		{`skyobject:"schema=User,y"`, "User"},
		{`skyobject:"schema=Имя" json:"-"`, "Имя"},
		{``, ""}, {`skyobject:""`, ""}, {`skyobject:"schema="`, ""},
		{`skyobject:"User"`, ""}, {`json:"schema=User"`, ""},
		{`skyobject:"schema=a=b"`, ""},
	} {
		k.Guard("tag", x.tag, func() {
			var got, err = registry.TagSchemaName(reflect.StructTag(x.tag))
			if got != x.want || (err == nil) != (x.want != "") {
				k.Violate("tag", x.tag, "schema name is %q, %v, want %q", got, err, x.want)
			}
		})
		k.Count("tags", 1)
	}
}

// invalid registrations are refused
func misuse(k *kit.K) {
	type ok struct{ X uint32 }
	type other struct{ Y uint32 }
	type badRef struct{ R registry.Ref }
	type badRefs struct{ R registry.Refs }
	type refInSlice struct{ R []registry.Ref }
	type refsInArray struct{ R [2]registry.Refs }
	type unknown struct {
		R registry.Ref `skyobject:"schema=Nope"`
	}
	type withMap struct{ M map[string]string }
	type withInt struct{ I int }
	for what, f := range map[string]func(t *registry.Reg){
		"empty name":        func(t *registry.Reg) { t.Register("", ok{}) },
		"the same name":     func(t *registry.Reg) { t.Register("a", ok{}); t.Register("a", other{}) },
		"Ref":               func(t *registry.Reg) { t.Register("a", registry.Ref{}) },
		"Refs":              func(t *registry.Reg) { t.Register("a", registry.Refs{}) },
		"Dynamic":           func(t *registry.Reg) { t.Register("a", registry.Dynamic{}) },
		"pointer to Ref":    func(t *registry.Reg) { t.Register("a", new(registry.Ref)) },
		"Ref without tag":   func(t *registry.Reg) { t.Register("a", badRef{}) },
		"Refs without tag":  func(t *registry.Reg) { t.Register("a", badRefs{}) },
		"Ref in a slice":    func(t *registry.Reg) { t.Register("a", refInSlice{}) },
		"Refs in an array":  func(t *registry.Reg) { t.Register("a", refsInArray{}) },
		"Ref to unknown":    func(t *registry.Reg) { t.Register("a", unknown{}) },
		"map":               func(t *registry.Reg) { t.Register("a", withMap{}) },
		"int":               func(t *registry.Reg) { t.Register("a", withInt{}) },
		"not a struct":      func(t *registry.Reg) { t.Register("a", uint32(0)) },
		"slice as the type": func(t *registry.Reg) { t.Register("a", []ok{}) },
	} {
		k.Count("misuses", 1)
		var paniced bool
		func() {
			defer func() { paniced = recover() != nil }()
			registry.NewRegistry(f)
		}()
		if !paniced {
			k.Violate("misuse", what, "registration of %s is accepted", what)
		}
	}
}
