package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/kit"
)

func envInt(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return def
}

func parallel(n int, f func()) {
	var wg sync.WaitGroup
	for ; n > 0; n-- {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

// calls in flight and pairs that overlapped
type calls struct {
	k     *kit.K
	cas   string
	count string

	mx    sync.Mutex
	now   map[string]int
	pairs map[string]bool
	n     int
}

func newCalls(k *kit.K, cas, count string) *calls {
	return &calls{k: k, cas: cas, count: count, now: make(map[string]int), pairs: make(map[string]bool)}
}

func (c *calls) do(name string, f func()) {
	c.mx.Lock()
	c.n++
	for x, n := range c.now {
		if n > 0 {
			if x < name {
				c.pairs[x+"+"+name] = true
			} else {
				c.pairs[name+"+"+x] = true
			}
		}
	}
	c.now[name]++
	c.mx.Unlock()
	c.k.Within("hang "+name, c.cas, 2*time.Minute, f)
	c.mx.Lock()
	c.now[name]--
	c.mx.Unlock()
}

// end counts
func (c *calls) end() {
	c.mx.Lock()
	defer c.mx.Unlock()
	var ps []string
	for p := range c.pairs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	c.k.Count(c.count, c.n)
	c.k.Count("overlapped", len(ps))
	c.k.Case(len(ps) > 0, fmt.Sprint(c.count, strings.Join(ps, " ")))
	if len(ps) > 30 {
		ps = ps[:30]
	}
	if strings.HasSuffix(c.cas, "s 0") {
		c.k.Sample(fmt.Sprintf("%s: %d calls; overlapped %s", c.cas, c.n, strings.Join(ps, " ")))
	}
}
