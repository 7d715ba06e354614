// C04: rolling averages.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"github.com/skycoin/cxo/skyobject/statutil"

	"verif/kit"
)

func main() {
	kit.Main("C04", kit.Opts{
		Rule: "random window sizes and sample streams (constant, small, huge, " +
			"negative, alternating, longer and shorter than the window); after " +
			"every sample the value is compared with the mean of the last " +
			"samples computed from scratch; concurrent writers and readers " +
			"under the race detector; non-trivial if the stream has different " +
			"samples",
		MinCases: 500,
		Need: []string{"samples_added", "window_not_full", "window_rolled",
			"concurrent_adds"},
	}, run)
}

func run(k *kit.K) {
	for i := 0; i < k.N(3000, 100000); i++ {
		float(k, i)
		duration(k, i)
	}
	for i := 0; i < k.N(150, 3000); i++ {
		concurrent(k, i)
		rolled(k, i)
	}
	for i, w := range []int{1, 2, 7, 255, 256, 257, 1000, 5000, 70000} {
		long(k, i, w)
	}
	startTime(k)
	panics(k)
}

func stream(r *rand.Rand, ln int) (xs []float64) {
	var kind = r.Intn(7)
	for i := 0; i < ln; i++ {
		var x float64
		switch kind {
		case 0:
			x = 42
		case 1:
			x = float64(r.Intn(10))
		case 2:
			x = r.Float64() * 1e12
		case 3:
			x = float64(r.Intn(2000) - 1000)
		case 4:
			x = float64(i%2) * 1e6
		case 5:
			x = math.Pow(10, float64(r.Intn(12)))
		case 6: // a burst of zeroes
			if r.Intn(3) > 0 {
				x = float64(r.Intn(1e6))
			}
		}
		xs = append(xs, x)
	}
	return
}

func mean(xs []float64, n int) (m float64) {
	if len(xs) > n {
		xs = xs[len(xs)-n:]
	}
	for _, x := range xs {
		m += x
	}
	return m / float64(len(xs))
}

func maxAbs(xs []float64) (m float64) {
	for _, x := range xs {
		m = math.Max(m, math.Abs(x))
	}
	return
}

func size(r *rand.Rand) int {
	switch r.Intn(4) {
	case 0:
		return 1
	case 1:
		return 2
	}
	return 1 + r.Intn(40)
}

func differ(xs []float64) bool {
	for _, x := range xs {
		if x != xs[0] {
			return true
		}
	}
	return false
}

func float(k *kit.K, n int) {
	var (
		r   = k.Rng("float", n)
		w   = size(r)
		xs  = stream(r, 1+r.Intn(4*w+3))
		f   = statutil.NewFloat(w)
		cas = fmt.Sprintf("float window %d stream %v", w, xs)
	)
	k.Case(differ(xs), cas)
	if n < 2 {
		k.Sample(cas)
	}
	if v := f.Value(); v != 0 {
		k.Violate("float-blank", cas, "value without samples is %v", v)
	}
	for i := range xs {
		var (
			got  = f.Add(xs[i])
			want = mean(xs[:i+1], w)
			tol  = 1e-9*maxAbs(xs[:i+1]) + 1e-9
		)
		k.Count("samples_added", 1)
		if i+1 < w {
			k.Count("window_not_full", 1)
		} else if i+1 > w {
			k.Count("window_rolled", 1)
		}
		if math.Abs(got-want) > tol || math.IsNaN(got) {
			k.Violate("float-mean", cas, "after %d samples: %v, the mean of the "+
				"last %d is %v", i+1, got, w, want)
			return
		}
		if v := f.Value(); v != got {
			k.Violate("float-value", cas, "Value %v, Add returned %v", v, got)
			return
		}
	}
}

func duration(k *kit.K, n int) {
	var (
		r   = k.Rng("dur", n)
		w   = size(r)
		xs  = stream(r, 1+r.Intn(4*w+3))
		d   = statutil.NewDuration(w)
		cas = fmt.Sprintf("duration window %d stream %v", w, xs)
	)
	for i := range xs {
		xs[i] = math.Floor(xs[i])
	}
	k.Case(differ(xs), cas)
	if n < 2 {
		k.Sample(cas)
	}
	if v := d.Value(); v != 0 {
		k.Violate("dur-blank", cas, "value without samples is %v", v)
	}
	for i := range xs {
		var (
			got  = d.Add(time.Duration(xs[i]))
			want = mean(xs[:i+1], w)
			tol  = 1e-9*maxAbs(xs[:i+1]) + 1.001
		)
		k.Count("samples_added", 1)
		if math.Abs(float64(got)-want) > tol {
			k.Violate("dur-mean", cas, "after %d samples: %d, the mean of the "+
				"last %d is %v", i+1, got, w, want)
			return
		}
		if v := d.Value(); v != got {
			k.Violate("dur-value", cas, "Value %v, Add returned %v", v, got)
			return
		}
	}
}

// a long stream of integers; the sum of the window is exact
func long(k *kit.K, n, w int) {
	var (
		r   = k.Rng("long", n)
		f   = statutil.NewFloat(w)
		d   = statutil.NewDuration(w)
		win = make([]int64, w)
		sum int64
		cas = fmt.Sprintf("long stream, window %d", w)
	)
	k.Case(true, cas)
	k.Count("samples_added", k.N(150000, 3000000))
	for i := 0; i < k.N(150000, 3000000); i++ {
		var x = int64(r.Intn(1e6))
		if (i/(w+1))%2 == 0 {
			x *= 1000
		}
		sum += x - win[i%w]
		win[i%w] = x
		var c = int64(w)
		if i < w {
			c = int64(i + 1)
		}
		var (
			want = float64(sum) / float64(c)
			gf   = f.Add(float64(x))
			gd   = d.Add(time.Duration(x))
		)
		if math.Abs(gf-want) > 1 || math.Abs(float64(gd)-want) > 2 {
			k.Violate("long", cas, "after %d samples: %v and %d, the mean is %v",
				i+1, gf, gd, want)
			return
		}
	}
}

// writers and readers: no sample is lost, no sample is counted twice. All
// samples are powers of the same base, so after the adds the sum of the window
// tells which of them are inside
func concurrent(k *kit.K, n int) {
	var (
		r    = k.Rng("conc", n)
		gs   = 2 + r.Intn(6)
		per  = 20 + r.Intn(60)
		w    = gs * per // all samples are in the window
		f    = statutil.NewFloat(w)
		d    = statutil.NewDuration(w)
		wg   sync.WaitGroup
		sum  float64
		rets = make([][]float64, gs)
		lo   = math.Inf(1)
		hi   = math.Inf(-1)
	)
	var in = make([][]float64, gs)
	for g := range in {
		for i := 0; i < per; i++ {
			var x = float64(1000 + r.Intn(100000))
			sum += x
			lo, hi = math.Min(lo, x), math.Max(hi, x)
			in[g] = append(in[g], x)
		}
	}
	for g := 0; g < gs; g++ {
		var xs, yield = in[g], r.Intn(3) == 0
		wg.Add(2)
		go func(g int) {
			defer wg.Done()
			for _, x := range xs {
				rets[g] = append(rets[g], f.Add(x))
				d.Add(time.Duration(x))
				if yield {
					runtime.Gosched()
				}
			}
		}(g)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				if v := f.Value(); v != 0 && (v < lo-1 || v > hi+1) {
					k.Violate("conc-range", "", "value %v out of [%v %v]", v, lo, hi)
				}
				if v := d.Value(); v != 0 &&
					(float64(v) < lo-1 || float64(v) > hi+1) {
					k.Violate("conc-range", "", "value %v out of [%v %v]", v, lo, hi)
				}
			}
		}()
	}
	wg.Wait()
	var (
		want = sum / float64(w)
		cas  = fmt.Sprintf("%d writers, %d samples each", gs, per)
		tol  = want*1e-6 + 1.1
	)
	k.Count("concurrent_adds", w*2)
	k.Case(true, fmt.Sprint(cas, want))
	if v := f.Value(); math.Abs(v-want) > want*1e-6 {
		k.Violate("conc-float", cas, "value %v, mean of all samples %v", v, want)
	}
	if v := d.Value(); math.Abs(float64(v)-want) > tol {
		k.Violate("conc-dur", cas, "value %v, mean of all samples %v", v, want)
	}
	var last = f.Value()
	var found bool
	for _, rs := range rets {
		if rs[len(rs)-1] == last {
			found = true
		}
		for _, v := range rs {
			if v < lo-1 || v > hi+1 {
				k.Violate("conc-range", cas, "Add returned %v out of [%v %v]",
					v, lo, hi)
				return
			}
		}
	}
	if !found {
		k.Violate("conc-last", cas, "no Add returned the last value %v", last)
	}
}

// a window smaller than amount of concurrently added samples: when the writers
// are done, the window still has exactly its size
func rolled(k *kit.K, n int) {
	var (
		r   = k.Rng("rolled", n)
		gs  = 2 + r.Intn(6)
		per = 20 + r.Intn(60)
		w   = 1 + r.Intn(20)
		f   = statutil.NewFloat(w)
		d   = statutil.NewDuration(w)
		wg  sync.WaitGroup
		all [][]float64
		cas = fmt.Sprintf("window %d, %d writers, %d samples each", w, gs, per)
	)
	for g := 0; g < gs; g++ {
		var xs []float64
		for i := 0; i < per; i++ {
			xs = append(xs, float64(r.Intn(1<<30)))
		}
		all = append(all, xs)
	}
	for g := 0; g < gs; g++ {
		wg.Add(1)
		go func(xs []float64) {
			defer wg.Done()
			for _, x := range xs {
				f.Add(x)
				d.Add(time.Duration(x))
			}
		}(all[g])
	}
	wg.Wait()
	k.Case(true, fmt.Sprint("rolled", n, cas))
	k.Count("concurrent_adds", gs*per*2)
	// sequential: every add replaces exactly one of the samples, and
	// the window is empty of the old ones after w adds
	var xs []float64
	for i := 0; i < 2*w; i++ {
		xs = append(xs, float64(r.Intn(1<<30)))
		var (
			gf = f.Add(xs[i])
			gd = d.Add(time.Duration(xs[i]))
		)
		if i+1 < w {
			continue
		}
		var want = mean(xs, w)
		// the old samples were up to 1<<30
		if math.Abs(gf-want) > 16 {
			k.Violate("rolled-float", cas, "value %v, mean of the last %d is %v",
				gf, w, want)
			return
		}
		if math.Abs(float64(gd)-want) > 16 {
			k.Violate("rolled-dur", cas, "value %v, mean of the last %d is %v",
				gd, w, want)
			return
		}
	}
}

// AddStartTime adds time since the start: it is between what is measured
// before and after the call
func startTime(k *kit.K) {
	for i := 0; i < k.N(50, 500); i++ {
		var (
			d     = statutil.NewDuration(1 + i%3)
			ago   = time.Duration(i-5) * time.Second // some are in the future
			start = time.Now().Add(-ago)
			lo    = time.Since(start)
			got   = d.AddStartTime(start)
			hi    = time.Since(start)
		)
		k.Case(true, fmt.Sprint("start", i))
		if got < lo || got > hi {
			k.Violate("start-time", fmt.Sprint(ago), "got %v, between %v and %v",
				got, lo, hi)
		}
	}
}

// amount of samples must be positive
func panics(k *kit.K) {
	for _, n := range []int{0, -1, -100} {
		for _, f := range []func(){
			func() { statutil.NewDuration(n) },
			func() { statutil.NewFloat(n) },
		} {
			var p = func() (p interface{}) {
				defer func() { p = recover() }()
				f()
				return
			}()
			if p == nil {
				k.Violate("no-panic", fmt.Sprint(n), "accepts invalid amount")
			}
			k.Case(true, fmt.Sprint("panic", n))
		}
	}
}
