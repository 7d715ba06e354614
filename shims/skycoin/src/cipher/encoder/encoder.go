// Package encoder is a stand-in for the skycoin binary encoder, which is not
// available offline: little-endian fixed-size integers, bool as a byte,
// strings and slices (and maps) prefixed with a uint32 length, arrays and
// structs without a prefix, fields tagged `enc:"-"` skipped.
package encoder

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
)

// encoding errors
var (
	ErrBufferUnderflow = errors.New("not enough buffer data to deserialize")
	ErrInvalid         = errors.New("deserialization failed: invalid data")
)

// Serialize given value
func Serialize(obj interface{}) []byte {
	var v = reflect.Indirect(reflect.ValueOf(obj))
	return enc(make([]byte, 0, 64), v)
}

func skip(f reflect.StructField) bool {
	return f.Tag.Get("enc") == "-" || f.Name == "_" ||
		(f.PkgPath != "" && !f.Anonymous)
}

func enc(b []byte, v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return enc(b, v.Elem())
	case reflect.Bool:
		if v.Bool() {
			return append(b, 1)
		}
		return append(b, 0)
	case reflect.Int8:
		return append(b, byte(v.Int()))
	case reflect.Uint8:
		return append(b, byte(v.Uint()))
	case reflect.Int16:
		return binary.LittleEndian.AppendUint16(b, uint16(v.Int()))
	case reflect.Uint16:
		return binary.LittleEndian.AppendUint16(b, uint16(v.Uint()))
	case reflect.Int32:
		return binary.LittleEndian.AppendUint32(b, uint32(v.Int()))
	case reflect.Uint32:
		return binary.LittleEndian.AppendUint32(b, uint32(v.Uint()))
	case reflect.Int64, reflect.Int:
		return binary.LittleEndian.AppendUint64(b, uint64(v.Int()))
	case reflect.Uint64, reflect.Uint:
		return binary.LittleEndian.AppendUint64(b, v.Uint())
	case reflect.Float32:
		return binary.LittleEndian.AppendUint32(b,
			math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		return binary.LittleEndian.AppendUint64(b, math.Float64bits(v.Float()))
	case reflect.String:
		b = binary.LittleEndian.AppendUint32(b, uint32(v.Len()))
		return append(b, v.String()...)
	case reflect.Slice:
		b = binary.LittleEndian.AppendUint32(b, uint32(v.Len()))
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return append(b, v.Bytes()...)
		}
		for i := 0; i < v.Len(); i++ {
			b = enc(b, v.Index(i))
		}
		return b
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			b = enc(b, v.Index(i))
		}
		return b
	case reflect.Struct:
		var t = v.Type()
		for i := 0; i < v.NumField(); i++ {
			if skip(t.Field(i)) {
				continue
			}
			b = enc(b, v.Field(i))
		}
		return b
	default:
		panic(fmt.Sprintf("encoder: can't serialize %s", v.Type()))
	}
}

// DeserializeRaw decodes the value from given data; it
// returns number of bytes used
func DeserializeRaw(in []byte, obj interface{}) (n uint64, err error) {
	return DeserializeRawToValue(in, reflect.ValueOf(obj))
}

// DeserializeRawToValue is DeserializeRaw that receives
// reflect.Value of a pointer
func DeserializeRawToValue(in []byte, v reflect.Value) (n uint64, err error) {
	if v.Kind() != reflect.Ptr {
		return 0, fmt.Errorf("DeserializeRaw value must be a ptr, is %s",
			v.Kind())
	}
	var d = decoder{in: in}
	if err = d.dec(v.Elem()); err != nil {
		return 0, err
	}
	return uint64(d.n), nil
}

type decoder struct {
	in []byte
	n  int
}

func (d *decoder) take(n int) (p []byte, err error) {
	if n < 0 || len(d.in)-d.n < n {
		return nil, ErrBufferUnderflow
	}
	p = d.in[d.n : d.n+n]
	d.n += n
	return
}

// blank returns true if an encoded value of the type is empty
func blank(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr:
		return blank(t.Elem())
	case reflect.Array:
		return t.Len() == 0 || blank(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !skip(t.Field(i)) && !blank(t.Field(i).Type) {
				return false
			}
		}
		return true
	}
	return false
}

func (d *decoder) length(blank bool) (l int, err error) {
	var p []byte
	if p, err = d.take(4); err != nil {
		return
	}
	l = int(binary.LittleEndian.Uint32(p))
	if blank { // elements take no place
		if l > 1<<20 {
			return 0, ErrInvalid
		}
	} else if l > len(d.in)-d.n { // an element is a byte at least
		return 0, ErrBufferUnderflow
	}
	return
}

func (d *decoder) dec(v reflect.Value) (err error) {
	var p []byte
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		return d.dec(v.Elem())
	case reflect.Bool:
		if p, err = d.take(1); err != nil {
			return
		}
		if p[0] > 1 {
			return ErrInvalid
		}
		v.SetBool(p[0] == 1)
	case reflect.Int8:
		if p, err = d.take(1); err != nil {
			return
		}
		v.SetInt(int64(int8(p[0])))
	case reflect.Uint8:
		if p, err = d.take(1); err != nil {
			return
		}
		v.SetUint(uint64(p[0]))
	case reflect.Int16:
		if p, err = d.take(2); err != nil {
			return
		}
		v.SetInt(int64(int16(binary.LittleEndian.Uint16(p))))
	case reflect.Uint16:
		if p, err = d.take(2); err != nil {
			return
		}
		v.SetUint(uint64(binary.LittleEndian.Uint16(p)))
	case reflect.Int32:
		if p, err = d.take(4); err != nil {
			return
		}
		v.SetInt(int64(int32(binary.LittleEndian.Uint32(p))))
	case reflect.Uint32:
		if p, err = d.take(4); err != nil {
			return
		}
		v.SetUint(uint64(binary.LittleEndian.Uint32(p)))
	case reflect.Int64, reflect.Int:
		if p, err = d.take(8); err != nil {
			return
		}
		v.SetInt(int64(binary.LittleEndian.Uint64(p)))
	case reflect.Uint64, reflect.Uint:
		if p, err = d.take(8); err != nil {
			return
		}
		v.SetUint(binary.LittleEndian.Uint64(p))
	case reflect.Float32:
		if p, err = d.take(4); err != nil {
			return
		}
		v.SetFloat(float64(math.Float32frombits(binary.LittleEndian.Uint32(p))))
	case reflect.Float64:
		if p, err = d.take(8); err != nil {
			return
		}
		v.SetFloat(math.Float64frombits(binary.LittleEndian.Uint64(p)))
	case reflect.String:
		var l int
		if l, err = d.length(false); err != nil {
			return
		}
		if p, err = d.take(l); err != nil {
			return
		}
		v.SetString(string(p))
	case reflect.Slice:
		var l int
		if l, err = d.length(blank(v.Type().Elem())); err != nil {
			return
		}
		if l == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if p, err = d.take(l); err != nil {
				return
			}
			v.SetBytes(append([]byte(nil), p...))
			return
		}
		var s = reflect.MakeSlice(v.Type(), 0, min(l, 1024))
		for i := 0; i < l; i++ {
			var e = reflect.New(v.Type().Elem()).Elem()
			if err = d.dec(e); err != nil {
				return
			}
			s = reflect.Append(s, e)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if err = d.dec(v.Index(i)); err != nil {
				return
			}
		}
	case reflect.Struct:
		var t = v.Type()
		for i := 0; i < v.NumField(); i++ {
			if skip(t.Field(i)) {
				continue
			}
			if err = d.dec(v.Field(i)); err != nil {
				return
			}
		}
	default:
		return fmt.Errorf("encoder: can't deserialize %s", v.Type())
	}
	return
}
