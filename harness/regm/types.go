package regm

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"

	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"
)

// T is model of a type
type T struct {
	Kind   reflect.Kind
	Name   string // name of a registered struct, or of a named type
	Fields []F
	Elem   *T
	Len    int
	Ref    registry.ReferenceType
	To     string // name of the type a reference points to
	Go     reflect.Type
}

// F is a field
type F struct {
	Name string
	Tag  string
	T    *T
	Skip bool // is not a part of the encoded value
}

// Registered type
func (t *T) Registered() bool { return t.Kind == reflect.Struct && t.Name != "" }

// HasRefs of the type
func (t *T) HasRefs() bool {
	switch {
	case t.Ref != registry.ReferenceTypeNone:
		return true
	case t.Elem != nil:
		return t.Elem.HasRefs()
	}
	for _, f := range t.Fields {
		if !f.Skip && f.T.HasRefs() {
			return true
		}
	}
	return false
}

func (t *T) String() string {
	switch {
	case t.Ref == registry.ReferenceTypeSingle:
		return "*" + t.To
	case t.Ref == registry.ReferenceTypeSlice:
		return "[]*" + t.To
	case t.Ref == registry.ReferenceTypeDynamic:
		return "dynamic"
	case t.Name != "":
		return t.Name
	case t.Kind == reflect.Slice:
		return "[]" + t.Elem.String()
	case t.Kind == reflect.Array:
		return fmt.Sprintf("[%d]%s", t.Len, t.Elem)
	case t.Kind == reflect.Struct:
		return t.Def()
	}
	return t.Kind.String()
}

// Def of a struct
func (t *T) Def() string {
	var fs []string
	for _, f := range t.Fields {
		fs = append(fs, fmt.Sprintf("%s %v `%s`", f.Name, f.T, f.Tag))
	}
	return "struct{" + strings.Join(fs, "; ") + "}"
}

// named types
type (
	Age   uint32
	Title string
	Blob  []byte
	Grid  [3]uint16
	Yes   bool
	Ratio float64
	Deep  [][]int8
)

func scalar(k reflect.Kind, g interface{}) *T {
	return &T{Kind: k, Go: reflect.TypeOf(g)}
}

var scalars = []*T{
	scalar(reflect.Bool, false),
	scalar(reflect.Int8, int8(0)), scalar(reflect.Uint8, uint8(0)),
	scalar(reflect.Int16, int16(0)), scalar(reflect.Uint16, uint16(0)),
	scalar(reflect.Int32, int32(0)), scalar(reflect.Uint32, uint32(0)),
	scalar(reflect.Int64, int64(0)), scalar(reflect.Uint64, uint64(0)),
	scalar(reflect.Float32, float32(0)), scalar(reflect.Float64, float64(0)),
	scalar(reflect.String, ""),
}

func named(g interface{}) (t *T) {
	t = fromGo(reflect.TypeOf(g))
	return
}

func fromGo(g reflect.Type) (t *T) {
	t = &T{Kind: g.Kind(), Go: g, Name: g.Name()}
	switch g.Kind() {
	case reflect.Slice:
		t.Elem = fromGo(g.Elem())
	case reflect.Array:
		t.Len = g.Len()
		t.Elem = fromGo(g.Elem())
	}
	if g.PkgPath() == "" && t.Elem == nil {
		t.Name = g.Name() // a scalar has the name of its kind
	}
	return
}

var nameds = []*T{named(Age(0)), named(Title("")), named(Blob(nil)),
	named(Grid{}), named(Yes(false)), named(Ratio(0)), named(Deep(nil))}

func init() {
	for _, s := range scalars {
		s.Name = s.Go.Name()
	}
}

// Set of registered types
type Set struct {
	Types []*T
	By    map[string]*T

	n int
}

// Names of the types
func (s *Set) Names() (ns []string) {
	for _, t := range s.Types {
		ns = append(ns, t.Name)
	}
	return
}

func (s *Set) String() string {
	var ss []string
	for _, t := range s.Types {
		ss = append(ss, t.Name+" "+t.Def())
	}
	return strings.Join(ss, "\n")
}

// Cfg of the generator
type Cfg struct {
	Max    int  // types
	Refs   bool // prefer references
	NoZero bool // no zero-length arrays
}

// NewSet generates types
func NewSet(r *rand.Rand, c Cfg) (s *Set) {
	s = &Set{By: make(map[string]*T)}
	var n = 1 + r.Intn(c.Max)
	var names []string
	var used = map[string]bool{}
	for i := 0; len(names) < n; i++ {
		var name = fmt.Sprintf("%s.T%d", []string{"cxo", "a", "main", "b/c", "Z", "имя"}[r.Intn(6)], i)
		if r.Intn(6) == 0 {
			name = fmt.Sprint("t", i)
		}
		if !used[name] {
			used[name] = true
			names = append(names, name)
		}
	}
	for _, name := range names {
		var t = s.genStruct(r, c, names, 0)
		t.Name = name
		s.Types = append(s.Types, t)
		s.By[name] = t
	}
	return
}

func (s *Set) genStruct(r *rand.Rand, c Cfg, names []string, d int) (t *T) {
	t = &T{Kind: reflect.Struct}
	var n = r.Intn(6)
	if d > 0 {
		n = r.Intn(4)
	}
	if n == 0 && (d == 0 || r.Intn(3) > 0) {
		n = 1
	}
	for i := 0; i < n; i++ {
		s.n++
		var f = F{Name: fmt.Sprint("F", s.n)}
		if r.Intn(8) == 0 {
			f.Name = fmt.Sprint("Ж", s.n)
		}
		f.T = s.genField(r, c, names, d)
		var tags []string
		if f.T.Ref == registry.ReferenceTypeSingle || f.T.Ref == registry.ReferenceTypeSlice {
			var x = "schema=" + f.T.To
			if r.Intn(4) == 0 {
				x = "other," + x
			}
			tags = append(tags, fmt.Sprintf(`skyobject:"%s"`, x))
		}
		if r.Intn(3) == 0 {
			tags = append(tags, fmt.Sprintf(`json:"f%d"`, s.n))
		}
		if r.Intn(12) == 0 {
			f.Skip = true
			tags = append(tags, `enc:"-"`)
		}
		r.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
		f.Tag = strings.Join(tags, " ")
		t.Fields = append(t.Fields, f)
	}
	t.makeGo()
	return
}

func (t *T) makeGo() {
	var fs []reflect.StructField
	for _, f := range t.Fields {
		fs = append(fs, reflect.StructField{Name: f.Name, Type: f.T.Go,
			Tag: reflect.StructTag(f.Tag)})
	}
	t.Go = reflect.StructOf(fs)
}

func refTo(rt registry.ReferenceType, to string) *T {
	switch rt {
	case registry.ReferenceTypeSingle:
		return &T{Kind: reflect.Ptr, Ref: rt, To: to, Go: reflect.TypeOf(registry.Ref{})}
	case registry.ReferenceTypeSlice:
		return &T{Kind: reflect.Ptr, Ref: rt, To: to, Go: reflect.TypeOf(registry.Refs{})}
	}
	return &T{Kind: reflect.Interface, Ref: registry.ReferenceTypeDynamic,
		Go: reflect.TypeOf(registry.Dynamic{})}
}

// a field can be Ref or Refs
func (s *Set) genField(r *rand.Rand, c Cfg, names []string, d int) *T {
	var to = names[r.Intn(len(names))]
	var x = 10
	if c.Refs {
		x = 4
	}
	switch r.Intn(x) {
	case 0:
		return refTo(registry.ReferenceTypeSingle, to)
	case 1:
		return refTo(registry.ReferenceTypeSlice, to)
	}
	return s.gen(r, c, names, d)
}

func (s *Set) gen(r *rand.Rand, c Cfg, names []string, d int) (t *T) {
	var x = 12
	if c.Refs {
		x = 9
	}
	if d > 3 {
		return scalars[r.Intn(len(scalars))]
	}
	switch r.Intn(x) {
	case 0:
		return refTo(registry.ReferenceTypeDynamic, "")
	case 1, 2:
		t = &T{Kind: reflect.Slice, Elem: s.gen(r, c, names, d+1)}
		t.Go = reflect.SliceOf(t.Elem.Go)
	case 3, 4:
		t = &T{Kind: reflect.Array, Elem: s.gen(r, c, names, d+1),
			Len: r.Intn(4)}
		if t.Len == 0 && (c.NoZero || t.Elem.HasRefs()) {
			t.Len = 1
		}
		t.Go = reflect.ArrayOf(t.Len, t.Elem.Go)
	case 5:
		t = s.genStruct(r, c, names, d+1)
	case 6, 7:
		if len(s.Types) == 0 {
			return s.gen(r, c, names, d+1)
		}
		return s.Types[r.Intn(len(s.Types))]
	case 8:
		return nameds[r.Intn(len(nameds))]
	default:
		return scalars[r.Intn(len(scalars))]
	}
	return
}

// New value of the type
func (t *T) New() reflect.Value { return reflect.New(t.Go) }

// Registry registers the types in given order
func (s *Set) Registry(order []int) *registry.Registry {
	return registry.NewRegistry(func(t *registry.Reg) {
		for _, i := range order {
			var x = s.Types[i]
			if i%2 == 0 {
				t.Register(x.Name, x.New().Interface()) // pointer
			} else {
				t.Register(x.Name, x.New().Elem().Interface())
			}
		}
	})
}

// Order is 0, 1, 2...
func (s *Set) Order() (o []int) {
	for i := range s.Types {
		o = append(o, i)
	}
	return
}

// CompareSchema with the type
func CompareSchema(sc registry.Schema, t *T, by map[string]*T) (err error) {
	return compareSchema(sc, t, by, 0)
}

func compareSchema(sc registry.Schema, t *T, by map[string]*T, d int) (err error) {
	defer func() {
		if err != nil {
			err = fmt.Errorf("%s > %v", t, err)
		}
	}()
	if sc == nil {
		return fmt.Errorf("no schema")
	}
	if sc.Kind() != t.Kind {
		return fmt.Errorf("kind is %s, want %s", sc.Kind(), t.Kind)
	}
	if sc.ReferenceType() != t.Ref || sc.IsReference() != (t.Ref != registry.ReferenceTypeNone) {
		return fmt.Errorf("reference type is %d (%t), want %d", sc.ReferenceType(), sc.IsReference(), t.Ref)
	}
	if sc.HasReferences() != t.HasRefs() {
		return fmt.Errorf("HasReferences is %t, want %t", sc.HasReferences(), t.HasRefs())
	}
	if sc.Name() != t.Name || string(sc.RawName()) != t.Name {
		return fmt.Errorf("name is %q, want %q", sc.Name(), t.Name)
	}
	if sc.IsRegistered() != t.Registered() {
		return fmt.Errorf("IsRegistered is %t", sc.IsRegistered())
	}
	if sc.Len() != t.Len {
		return fmt.Errorf("length is %d, want %d", sc.Len(), t.Len)
	}
	switch t.Ref {
	case registry.ReferenceTypeSingle, registry.ReferenceTypeSlice:
		if sc.Elem() == nil || sc.Elem().Name() != t.To || !sc.Elem().IsRegistered() {
			return fmt.Errorf("it refers to %v, want %s", sc.Elem(), t.To)
		}
		if d > 4 {
			return
		}
		return compareSchema(sc.Elem(), by[t.To], by, d+3)
	case registry.ReferenceTypeDynamic:
		if sc.Elem() != nil {
			return fmt.Errorf("element of dynamic is %s", sc.Elem())
		}
		return
	}
	if t.Elem != nil {
		return compareSchema(sc.Elem(), t.Elem, by, d+1)
	} else if sc.Elem() != nil {
		return fmt.Errorf("unexpected element %s", sc.Elem())
	}
	var i int
	for _, f := range t.Fields {
		if f.Skip {
			continue
		}
		if i >= len(sc.Fields()) {
			return fmt.Errorf("%d fields, %s is missing", len(sc.Fields()), f.Name)
		}
		var sf = sc.Fields()[i]
		i++
		if sf.Name() != f.Name || string(sf.RawName()) != f.Name {
			return fmt.Errorf("field %s, want %s", sf.Name(), f.Name)
		}
		if string(sf.Tag()) != f.Tag || string(sf.RawTag()) != f.Tag {
			return fmt.Errorf("tag %q, want %q", sf.Tag(), f.Tag)
		}
		if sf.Kind() != f.T.Kind {
			return fmt.Errorf("field %s of kind %s, want %s", f.Name, sf.Kind(), f.T.Kind)
		}
		if err = compareSchema(sf.Schema(), f.T, by, d+1); err != nil {
			return
		}
	}
	if i != len(sc.Fields()) {
		return fmt.Errorf("%d fields, want %d", len(sc.Fields()), i)
	}
	return
}

// Refer makes references of a generated value
type Refer func(t *T, v reflect.Value)

// Fill a value with random content
func (t *T) Fill(r *rand.Rand, v reflect.Value, d int, ref Refer) {
	if t.Ref != registry.ReferenceTypeNone {
		ref(t, v)
		return
	}
	switch t.Kind {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.Uint64()))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(r.Uint64())
	case reflect.Float32:
		v.SetFloat(float64(math.Float32frombits(r.Uint32() &^ (1 << 30))))
	case reflect.Float64:
		v.SetFloat(math.Float64frombits(r.Uint64() &^ (1 << 62)))
	case reflect.String:
		var b = make([]byte, size(r, 20))
		r.Read(b)
		v.SetString(string(b))
	case reflect.Slice:
		var n = size(r, 6)
		if d > 3 {
			n = size(r, 2)
		}
		if t.Elem.Kind == reflect.Uint8 {
			n = size(r, 300)
		}
		v.Set(reflect.MakeSlice(t.Go, n, n))
		for i := 0; i < n; i++ {
			t.Elem.Fill(r, v.Index(i), d+1, ref)
		}
	case reflect.Array:
		for i := 0; i < t.Len; i++ {
			t.Elem.Fill(r, v.Index(i), d+1, ref)
		}
	case reflect.Struct:
		for i, f := range t.Fields {
			if !f.Skip {
				f.T.Fill(r, v.Field(i), d+1, ref)
			}
		}
	}
}

func size(r *rand.Rand, max int) int {
	if r.Intn(5) == 0 {
		return 0
	}
	return r.Intn(max + 1)
}

// RandomRefs fills references with random hashes
func RandomRefs(r *rand.Rand) Refer {
	var hash = func() (h cipher.SHA256) {
		if r.Intn(5) > 0 {
			r.Read(h[:])
		}
		return
	}
	return func(t *T, v reflect.Value) {
		switch x := v.Addr().Interface().(type) {
		case *registry.Ref:
			x.Hash = hash()
		case *registry.Refs:
			x.Hash = hash()
		case *registry.Dynamic:
			x.Schema = registry.SchemaRef(hash())
			x.Hash = hash()
		}
	}
}

// Enc encodes
func Enc(v interface{}) []byte { return encoder.Serialize(v) }
