// C05: human-readable volumes and amounts.
package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"

	"github.com/skycoin/cxo/skyobject/statutil"

	"verif/kit"
)

func main() {
	kit.Main("C05", kit.Opts{
		Rule: "values around every unit boundary, every rounding boundary, " +
			"powers, and random ones; the string is parsed back and compared " +
			"with the value: right unit, error not bigger than the rounding, " +
			"order kept, no trailing zeroes; non-trivial from the first unit on",
		MinCases: 1000,
		Need:     []string{"volumes", "amounts"},
	}, run)
}

var re = regexp.MustCompile(`^(\d+)(?:\.(\d{1,2}))?(k|M|G|T|P|E|Z|Y)?$`)

const prefixes = "kMGTPEZY"

func run(k *kit.K) {
	var vals = map[uint32]bool{}
	add := func(f float64) {
		for d := -3.0; d <= 3; d++ {
			if x := math.Floor(f) + d; x >= 0 && x <= math.MaxUint32 {
				vals[uint32(x)] = true
			}
		}
	}
	for _, base := range []float64{1000, 1024} {
		for p := 0.0; p < 4; p++ {
			var u = math.Pow(base, p)
			for _, m := range []float64{1, 1.004, 1.005, 1.006, 1.01, 1.1, 1.5,
				9.99, 9.995, 10, 99.99, 99.995, 100, 100.5, 110, 120.05, 500, 999,
				999.99, 999.995, 1000, 1023, 1023.99, 1023.995, 1023.999} {
				add(u * m)
			}
		}
	}
	for i := 0; i < 32; i++ {
		add(float64(uint64(1) << i))
	}
	add(math.MaxUint32)
	for i := uint32(0); i < 3000; i++ {
		vals[i] = true
	}
	var r = k.Rng("values")
	for i := 0; i < k.N(200000, 4000000); i++ {
		vals[uint32(r.Uint64()>>(32+uint(r.Intn(32))))] = true
	}
	var sorted []uint32
	for v := range vals {
		sorted = append(sorted, v)
	}
	sort.Slice(sorted, func(i, j int) bool { return sorted[i] < sorted[j] })
	for _, v := range sorted {
		check(k, "volume", v, 1024, statutil.Volume(v).String(), "B")
		check(k, "amount", v, 1000, statutil.Amount(v).String(), "")
		// order
		if d := uint32(r.Intn(1 << uint(r.Intn(30)))); v+d > v {
			order(k, v, v+d)
		}
	}
	for _, v := range []uint32{0, 1023, 1024, 1500000, math.MaxUint32} {
		k.Sample(fmt.Sprintf("%d: %s, %s", v, statutil.Volume(v),
			statutil.Amount(v)))
	}
}

func parse(s string, base float64, suffix string) (x, unit float64, err error) {
	if len(s) < len(suffix) || s[len(s)-len(suffix):] != suffix {
		return 0, 0, fmt.Errorf("no suffix")
	}
	s = s[:len(s)-len(suffix)]
	var m = re.FindStringSubmatch(s)
	if m == nil {
		return 0, 0, fmt.Errorf("malformed")
	}
	if m[2] != "" && m[2][len(m[2])-1] == '0' {
		return 0, 0, fmt.Errorf("trailing zeroes")
	}
	unit = 1
	if m[3] != "" {
		for i := range prefixes {
			unit *= base
			if prefixes[i:i+1] == m[3] {
				break
			}
		}
	}
	var n = m[1]
	if m[2] != "" {
		n += "." + m[2]
	}
	x, err = strconv.ParseFloat(n, 64)
	return
}

func check(k *kit.K, kind string, v uint32, base float64, s, suffix string) {
	k.Count(kind+"s", 1)
	k.Case(float64(v) >= base, kind+s)
	var x, unit, err = parse(s, base, suffix)
	if err != nil {
		k.Violate(kind+"-format", fmt.Sprint(v), "%d is %q: %v", v, s, err)
		return
	}
	// the biggest unit that fits
	if float64(v) < unit && v != 0 || float64(v) >= unit*base {
		k.Violate(kind+"-unit", fmt.Sprint(v), "%d is %q: wrong unit", v, s)
		return
	}
	if math.Abs(x*unit-float64(v)) > unit*0.00501 {
		k.Violate(kind+"-value", fmt.Sprint(v), "%d is %q, that is %v", v, s,
			x*unit)
	}
}

func order(k *kit.K, a, b uint32) {
	var ax, au, e1 = parse(statutil.Volume(a).String(), 1024, "B")
	var bx, bu, e2 = parse(statutil.Volume(b).String(), 1024, "B")
	if e1 == nil && e2 == nil && ax*au > bx*bu {
		k.Violate("volume-order", fmt.Sprint(a, " ", b), "%s > %s",
			statutil.Volume(a), statutil.Volume(b))
	}
	ax, au, e1 = parse(statutil.Amount(a).String(), 1000, "")
	bx, bu, e2 = parse(statutil.Amount(b).String(), 1000, "")
	if e1 == nil && e2 == nil && ax*au > bx*bu {
		k.Violate("amount-order", fmt.Sprint(a, " ", b), "%s > %s",
			statutil.Amount(a), statutil.Amount(b))
	}
}
