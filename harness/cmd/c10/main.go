// C10: records of roots: encoding and validity.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"

	"verif/kit"
)

func main() {
	kit.Main("C10", kit.Opts{
		Rule: "random records with edge values of every field: encoded and " +
			"decoded; every truncation of an encoding must be refused, every " +
			"change of a byte must be seen in the decoded record; validity " +
			"against the documented rules; non-trivial if the record has no " +
			"blank field",
		MinCases: 300,
		Need:     []string{"truncations", "changes", "valid", "invalid"},
	}, run)
}

func random(r *rand.Rand) (x data.Root, full bool) {
	var i64 = func() int64 {
		switch r.Intn(5) {
		case 0:
			return 0
		case 1:
			return []int64{1, -1, math.MaxInt64, math.MinInt64}[r.Intn(4)]
		}
		return r.Int63()
	}
	x.Create, x.Access, x.Time = i64(), i64(), i64()
	switch r.Intn(4) {
	case 0:
	case 1:
		x.Seq = math.MaxUint64
	default:
		x.Seq = r.Uint64() >> uint(r.Intn(64))
	}
	if r.Intn(3) > 0 {
		r.Read(x.Prev[:])
	}
	if r.Intn(8) > 0 {
		r.Read(x.Hash[:])
	}
	if r.Intn(8) > 0 {
		r.Read(x.Sig[:])
	}
	switch r.Intn(16) { // almost blank
	case 0:
		x.Hash = cipher.SHA256{}
		x.Hash[r.Intn(len(x.Hash))] = 1
	case 1:
		x.Sig = cipher.Sig{}
		x.Sig[r.Intn(len(x.Sig))] = 1
	case 2:
		x.Prev = cipher.SHA256{}
		x.Prev[r.Intn(len(x.Prev))] = 1
	}
	full = x.Create != 0 && x.Access != 0 && x.Time != 0 && x.Seq != 0 &&
		x.Prev != cipher.SHA256{} && x.Hash != cipher.SHA256{} &&
		x.Sig != cipher.Sig{}
	return
}

func run(k *kit.K) {
	for i := 0; i < k.N(3000, 60000); i++ {
		one(k, i)
	}
}

func one(k *kit.K, n int) {
	var (
		r       = k.Rng(n)
		x, full = random(r)
		keep    = x
		cas     = fmt.Sprintf("%+v", x)
		enc     = x.Encode()
		y       data.Root
	)
	k.Case(full, cas)
	if n == 0 {
		k.Sample(cas)
	}
	k.Guard("panic", cas, func() {
		if r.Intn(2) == 0 {
			y, _ = random(r) // not blank receiver
		}
		if err := y.Decode(enc); err != nil || x != y {
			k.Violate("round-trip", cas, "got %+v, %v", y, err)
			return
		}
		if !bytes.Equal(y.Encode(), enc) || x != keep {
			k.Violate("unstable", cas, "another encoding")
		}
		for i := 0; i < len(enc); i++ {
			if n%10 > 0 && r.Intn(10) > 0 {
				continue
			}
			k.Count("truncations", 1)
			if err := new(data.Root).Decode(enc[:i:i]); err == nil {
				k.Violate("truncated", cas, "%d bytes of %d are decoded", i,
					len(enc))
			}
			k.Count("changes", 1)
			var c = append([]byte{}, enc...)
			c[i] ^= byte(1 + r.Intn(255))
			var z data.Root
			if err := z.Decode(c); err == nil && z == x {
				k.Violate("insensitive", cas, "byte %d of %d doesn't matter", i,
					len(enc))
			}
		}
		for i := 0; i < 5; i++ { // garbage
			var c = make([]byte, r.Intn(2*len(enc)))
			r.Read(c)
			new(data.Root).Decode(c)
		}
		var bad = (x.Seq == 0) != (x.Prev == cipher.SHA256{}) ||
			x.Hash == cipher.SHA256{} || x.Sig == cipher.Sig{} || x.Time == 0
		if err := x.Validate(); (err != nil) != bad {
			k.Violate("validate", cas, "error is %v", err)
		}
		if bad {
			k.Count("invalid", 1)
		} else {
			k.Count("valid", 1)
		}
	})
}
