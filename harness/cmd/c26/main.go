// C26: messages between nodes
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"strings"

	"github.com/skycoin/cxo/node/msg"

	"verif/kit"
	"verif/msgm"
)

func main() {
	var need = []string{"round_trips", "truncations", "extensions", "changes", "random_bytes", "huge_lengths", "unknown_types", "refused", "accepted_foreign"}
	for _, n := range msgm.Names[1:] {
		need = append(need, "decoded_"+n)
	}
	kit.Main("C26", kit.Opts{
		Rule: "random messages of every type with edge values of every field against an independent encoder of the wire format; then truncations, extensions, changed bytes, " +
			"other types, huge lengths and random bytes: whatever is decoded must encode to the same bytes, memory is bounded; non-trivial if the message has a field that is not blank; distinct by the bytes",
		MinCases: 3000,
		Need:     need,
	}, run)
}

func run(k *kit.K) {
	for i := 0; i < k.N(8000, 400000) && k.Bad() < 15; i++ {
		one(k, k.Rng(i), i)
	}
	for i := 0; i < k.N(200000, 10000000) && k.Bad() < 15; i++ {
		var r = k.Rng("random", i)
		var b = make([]byte, r.Intn(120))
		r.Read(b)
		if len(b) > 0 && r.Intn(4) > 0 {
			b[0] = byte(1 + r.Intn(16))
		}
		foreign(k, "random bytes", b)
		k.Count("random_bytes", 1)
	}
	for t := 0; t < 256; t++ {
		var want = "Type<" + fmt.Sprint(t) + ">"
		if t > 0 && t < len(msgm.Names) {
			want = msgm.Names[t]
		}
		if got := msg.Type(t).String(); got != want {
			k.Violate("name", fmt.Sprint(t), "type %d is called %q, not %q", t, got, want)
		}
	}
}

func short(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%x... (%d bytes)", b[:300], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// equal, but nil slices are equal to empty ones
func equal(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Ptr:
		return equal(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !equal(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !equal(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	}
	return a.Interface() == b.Interface()
}

func one(k *kit.K, r *rand.Rand, n int) {
	var t = 1 + n%16
	var m, want, lens = msgm.Random(r, t)
	var cas = msgm.Names[t] + " " + short(want)
	k.Case(len(want) > 1 && len(bytes.Trim(want[1:], "\x00")) > 0, cas)
	k.Guard("panic", cas, func() {
		if m.Type() != msg.Type(t) || m.Type().String() != msgm.Names[t] {
			k.Violate("type", cas, "type of %s is %d %s", msgm.Names[t], m.Type(), m.Type())
		}
		var got = m.Encode()
		if !bytes.Equal(got, want) {
			k.Violate("encoding", cas, "encoded to %s", short(got))
			return
		}
		var src = append([]byte(nil), want...)
		var x, err = msg.Decode(src)
		if err != nil {
			k.Violate("round trip", cas, "can't be decoded: %v", err)
			return
		}
		if reflect.TypeOf(x) != reflect.TypeOf(m) || !equal(reflect.ValueOf(x), reflect.ValueOf(m)) {
			k.Violate("round trip", cas, "decoded %T %+v", x, x)
			return
		}
		if !bytes.Equal(src, want) {
			k.Violate("round trip", cas, "Decode changes the bytes")
		}
		if !bytes.Equal(x.Encode(), want) || !bytes.Equal(x.Encode(), want) {
			k.Violate("round trip", cas, "encoded again to other bytes")
		}
		k.Count("round_trips", 1)
		k.Count("decoded_"+msgm.Names[t], 1)
	})
	// foreign bytes
	for i := 0; i < 12; i++ {
		var at = r.Intn(len(want))
		if r.Intn(2) == 0 && len(want) > 120 {
			at = r.Intn(120)
		}
		var b = append([]byte(nil), want[:at]...)
		if _, err := msg.Decode(b); err == nil && at > 0 {
			// nothing shorter is a message of this type with the same lengths
			k.Violate("truncated", cas, "%d bytes of %d are accepted", at, len(want))
		}
		foreign(k, cas, b)
		k.Count("truncations", 1)
		b = append([]byte(nil), want...)
		b[at] ^= byte(1 + r.Intn(255))
		foreign(k, cas, b)
		k.Count("changes", 1)
	}
	for i := 0; i < 3; i++ {
		var tail = make([]byte, 1+r.Intn(40))
		if r.Intn(2) == 0 {
			r.Read(tail)
		}
		var b = append(append([]byte(nil), want...), tail...)
		if _, err := msg.Decode(b); err == nil {
			k.Violate("extended", cas, "%d bytes more are accepted", len(tail))
		}
		foreign(k, cas, b)
		k.Count("extensions", 1)
	}
	for _, at := range lens {
		var b = append([]byte(nil), want...)
		var l = binary.LittleEndian.Uint32(b[at:])
		binary.LittleEndian.PutUint32(b[at:], []uint32{math.MaxUint32, 1 << 31, 1<<31 - 1, 1 << 24, l + 1, l - 1, 0}[r.Intn(7)])
		foreign(k, cas, b)
		if r.Intn(2) == 0 {
			foreign(k, cas, b[:at+4])
		}
		k.Count("huge_lengths", 1)
	}
	var b = append([]byte(nil), want...)
	b[0] = byte(r.Intn(256))
	foreign(k, cas, b)
}

var before, after runtime.MemStats

func foreign(k *kit.K, from string, b []byte) {
	var cas = "from " + from + ": " + short(b)
	k.Guard("panic", cas, func() {
		var measure = len(b) > 4 && b[0]%4 == b[1]%4
		if measure {
			runtime.ReadMemStats(&before)
		}
		var x, err = msg.Decode(b)
		if measure {
			runtime.ReadMemStats(&after)
			if got := after.TotalAlloc - before.TotalAlloc; got > uint64(16*len(b)+1<<16) {
				k.Violate("memory", cas, "%d bytes are allocated for %d bytes of a message", got, len(b))
			}
			k.Count("memory_measured", 1)
		}
		if err != nil {
			k.Count("refused", 1)
			if x != nil && !reflect.ValueOf(x).IsNil() {
				k.Violate("refused", cas, "error %v with a message %T", err, x)
			}
			if strings.TrimSpace(err.Error()) == "" {
				k.Violate("refused", cas, "the error says nothing")
			}
			if len(b) == 0 && err != msg.ErrEmptyMessage {
				k.Violate("refused", cas, "error is %v", err)
			}
			if len(b) > 0 && (b[0] == 0 || int(b[0]) >= len(msgm.Names)) {
				var ite msg.InvalidTypeError
				if !errors.As(err, &ite) || ite.Type() != msg.Type(b[0]) {
					k.Violate("refused", cas, "error is %v", err)
				}
				k.Count("unknown_types", 1)
			}
			return
		}
		if x == nil {
			k.Violate("accepted", cas, "no error and no message")
			return
		}
		if x.Type() != msg.Type(b[0]) {
			k.Violate("accepted", cas, "decoded to %T", x)
		}
		if !bytes.Equal(x.Encode(), b) {
			k.Violate("accepted", cas, "decoded to %T that is encoded to %s", x, short(x.Encode()))
		}
		k.Count("accepted_foreign", 1)
	})
}
