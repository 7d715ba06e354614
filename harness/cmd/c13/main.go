// C13: schemas describe encoded values exactly.
package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"time"

	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher/encoder"

	"verif/kit"
	"verif/regm"
)

func main() {
	kit.Main("C13", kit.Opts{
		Rule: "random sets of Go types and random values of them (of fields " +
			"and elements too) are encoded; Size of the schema must be the " +
			"length of the encoding, with any bytes after it, and an error " +
			"for all shorter prefixes; attributes of the schemas are " +
			"compared with the types; schemas are taken from the registry " +
			"and from its decoded copy; non-trivial if the value has 8 or " +
			"more bytes; distinct by the type and the encoding",
		MinCases: 500,
		Need:     []string{"sizes", "prefixes", "with_references", "kinds_array", "kinds_slice", "kinds_struct"},
	}, run)
}

func run(k *kit.K) {
	for i := 0; i < k.N(2000, 40000); i++ {
		k.Within("hang", fmt.Sprint(i), time.Minute, func() { set(k, i) })
	}
}

func set(k *kit.K, n int) {
	var (
		r   = k.Rng("set", n)
		s   = regm.NewSet(r, regm.Cfg{Max: 5})
		cas = s.String()
	)
	k.Guard("panic", cas, func() {
		var reg = s.Registry(r.Perm(len(s.Types)))
		var dec, err = registry.DecodeRegistry(reg.Encode())
		if err != nil {
			k.Violate("decode", cas, "%v", err)
			return
		}
		for _, t := range s.Types {
			for i, x := range []*registry.Registry{reg, dec} {
				var sc, err = x.SchemaByName(t.Name)
				if err == nil {
					err = regm.CompareSchema(sc, t, s.By)
				}
				if err != nil {
					k.Violate("schema", cas, "(decoded: %t) %v", i == 1, err)
					continue
				}
				for j := 0; j < 3; j++ {
					var v = t.New().Elem()
					t.Fill(r, v, 0, regm.RandomRefs(r))
					value(k, r, cas, sc, t, v)
				}
			}
		}
	})
}

// compare the size and look deeper
func value(k *kit.K, r *rand.Rand, cas string, sc registry.Schema, t *regm.T, v reflect.Value) {
	var enc = encoder.Serialize(v.Interface())
	k.Case(len(enc) >= 8, t.String()+string(enc))
	k.Count("kinds_"+t.Kind.String(), 1)
	if t.HasRefs() {
		k.Count("with_references", 1)
	}
	var want = len(enc)
	for i := 0; i < 3; i++ {
		var p = append([]byte(nil), enc...)
		var junk = make([]byte, []int{0, 1, 40}[i])
		r.Read(junk)
		p = append(p, junk...)
		k.Count("sizes", 1)
		if got, err := sc.Size(p); err != nil || got != want {
			k.Violate("size", cas, "Size of %s is %d, %v, want %d (%d bytes follow)", t, got, err, want, len(junk))
			return
		}
	}
	var step = 1
	if len(enc) > 400 {
		step = len(enc) / 200
	}
	for i := 0; i < len(enc); i += step {
		k.Count("prefixes", 1)
		var p = enc[:i:i]
		if i == 0 && r.Intn(2) == 0 {
			p = nil
		}
		if got, err := sc.Size(p); err == nil {
			k.Violate("prefix", cas, "Size of %s is %d without an error for %d bytes of %d", t, got, i, len(enc))
			return
		}
	}
	if t.Ref != registry.ReferenceTypeNone {
		return
	}
	switch t.Kind {
	case reflect.Array, reflect.Slice:
		if v.Len() > 0 {
			value(k, r, cas, sc.Elem(), t.Elem, v.Index(r.Intn(v.Len())))
		}
	case reflect.Struct:
		var j int
		for i, f := range t.Fields {
			if f.Skip {
				continue
			}
			value(k, r, cas, sc.Fields()[j].Schema(), f.T, v.Field(i))
			j++
		}
	}
}
