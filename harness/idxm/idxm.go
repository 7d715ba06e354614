// Package idxm is a sequential model of IdxDB with a differential driver.
package idxm

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
)

// Roots of a head
type Roots map[uint64]data.Root

// Heads of a feed
type Heads map[uint64]Roots

// Feeds is the Model
type Feeds map[cipher.PubKey]Heads

// Clone the Model
func (f Feeds) Clone() (n Feeds) {
	n = make(Feeds)
	for pk, hs := range f {
		n[pk] = make(Heads)
		for nonce, rs := range hs {
			var c = make(Roots)
			for s, r := range rs {
				c[s] = r
			}
			n[pk][nonce] = c
		}
	}
	return
}

// String of the model
func (f Feeds) String() string {
	var ss []string
	for pk, hs := range f {
		for nonce, rs := range hs {
			var seqs []string
			for s := range rs {
				seqs = append(seqs, fmt.Sprint(s))
			}
			sort.Strings(seqs)
			ss = append(ss, fmt.Sprintf("%x/%d:%v", pk[30:], nonce, seqs))
		}
		if len(hs) == 0 {
			ss = append(ss, fmt.Sprintf("%x", pk[30:]))
		}
	}
	sort.Strings(ss)
	return strings.Join(ss, " ")
}

// Pool of keys
type Pool struct {
	Pks    []cipher.PubKey
	Nonces []uint64
	Seqs   []uint64
}

// NewPool for given generator
func NewPool(r *rand.Rand) (p *Pool) {
	p = new(Pool)
	for i := 0; i < 1+r.Intn(3); i++ {
		var pk cipher.PubKey
		r.Read(pk[:])
		if r.Intn(4) == 0 { // carry
			for j := 32; j > 32-1-r.Intn(30); j-- {
				pk[j] = 0xff
			}
		}
		pk[0] = 2 + byte(r.Intn(2))
		if i > 0 && r.Intn(4) == 0 {
			pk = p.Pks[i-1]
			pk[32]++
		}
		p.Pks = append(p.Pks, pk)
	}
	var add = func(ns []uint64) []uint64 {
		for i := 0; i < 1+r.Intn(3); i++ {
			var n uint64
			switch r.Intn(6) {
			case 0:
				n = uint64(r.Intn(4))
			case 1:
				n = math.MaxUint64 - uint64(r.Intn(2))
			case 2:
				n = 254 + uint64(r.Intn(4)) // carry
			case 3:
				n = 1<<32 - 1 + uint64(r.Intn(3))
			case 4:
				n = r.Uint64()
			case 5:
				n = uint64(r.Intn(1000))
			}
			ns = append(ns, n)
		}
		return ns
	}
	p.Nonces = add(nil)
	p.Seqs = add(add([]uint64{0, 1}))
	return
}

func (p *Pool) root(r *rand.Rand) (x data.Root, valid bool) {
	x.Seq = p.Seqs[r.Intn(len(p.Seqs))]
	x.Time = 1 + r.Int63()
	if x.Seq > 0 {
		r.Read(x.Prev[:])
	}
	r.Read(x.Hash[:])
	r.Read(x.Sig[:])
	valid = true
	switch r.Intn(30) {
	case 0:
		x.Hash, valid = cipher.SHA256{}, false
	case 1:
		x.Sig, valid = cipher.Sig{}, false
	case 2:
		x.Time, valid = 0, false
	case 3:
		if x.Seq == 0 {
			x.Prev[r.Intn(32)] = 1
		} else {
			x.Prev = cipher.SHA256{}
		}
		valid = false
	}
	return
}

var errAbort = errors.New("abort")
var errBreak = errors.New("break")

type tx struct {
	r   *rand.Rand
	p   *Pool
	m   Feeds
	ops []string
	bad string
}

func (t *tx) op(format string, args ...interface{}) {
	t.ops = append(t.ops, fmt.Sprintf(format, args...))
}

func (t *tx) fail(format string, args ...interface{}) {
	if t.bad == "" {
		t.bad = t.ops[len(t.ops)-1] + ": " + fmt.Sprintf(format, args...)
	}
}

// same compares stored fields
func same(a, b *data.Root) bool {
	return a.Time == b.Time && a.Seq == b.Seq && a.Prev == b.Prev &&
		a.Hash == b.Hash && a.Sig == b.Sig
}

// peek a Root without access
func peek(rs data.Roots, seq uint64) (x *data.Root) {
	rs.Ascend(func(r *data.Root) error {
		if r.Seq == seq {
			var c = *r
			x = &c
			return data.ErrStopIteration
		}
		return nil
	})
	return
}

// Tx performs a random transaction on the model and (if it is not nil) on the
// database. It returns the model after the transaction, description and
// mismatch if any
func Tx(r *rand.Rand, p *Pool, m Feeds, db data.IdxDB, maxOps int,
	mutate bool) (nm Feeds, desc, bad string, committed bool) {

	var (
		t   = &tx{r: r, p: p, m: m.Clone()}
		n   = 1 + r.Intn(maxOps)
		end = r.Intn(8) // 0 - error, 1 - panic
		err error
		pan interface{}
	)
	var f = func(fs data.Feeds) error {
		for i := 0; i < n && t.bad == ""; i++ {
			t.step(fs, mutate)
		}
		if t.bad == "" && fs != nil {
			if s := Compare(fs, t.m); s != "" {
				t.op("compare")
				t.fail("%s", s)
			}
		}
		switch end {
		case 0:
			return errAbort
		case 1:
			panic(errAbort)
		}
		return nil
	}
	func() {
		defer func() { pan = recover() }()
		if db == nil {
			err = f(nil)
		} else {
			err = db.Tx(f)
		}
	}()
	desc = "{" + strings.Join(t.ops, "; ") + "}"
	if t.bad != "" {
		return m, desc, t.bad, false
	}
	switch {
	case pan != nil && pan != errAbort:
		return m, desc, fmt.Sprintf("panic: %v", pan), false
	case end == 0:
		if err != errAbort {
			return m, desc, fmt.Sprintf("error is not passed through: %v", err), false
		}
		return m, desc + " aborted", "", false
	case end == 1:
		if pan == nil {
			return m, desc, "panic is not passed through", false
		}
		return m, desc + " panicked", "", false
	case err != nil:
		return m, desc, fmt.Sprintf("error: %v", err), false
	}
	return t.m, desc, "", true
}

func (t *tx) step(fs data.Feeds, mutate bool) {
	var (
		r     = t.r
		x     = r.Intn(100)
		pk    = t.p.Pks[r.Intn(len(t.p.Pks))]
		nonce = t.p.Nonces[r.Intn(len(t.p.Nonces))]
		root  data.Root
		valid bool
	)
	root, valid = t.p.root(r)
	var hm, hasFeed = t.m[pk]
	var rm, hasHead = hm[nonce]
	var _, hasRoot = rm[root.Seq]

	if x < 15 {
		t.op("add feed %x", pk[30:])
		if !hasFeed {
			t.m[pk] = make(Heads)
		}
		if fs != nil {
			if err := fs.Add(pk); err != nil {
				t.fail("%v", err)
			}
		}
		return
	}
	if x < 18 {
		t.op("del feed %x", pk[30:])
		delete(t.m, pk)
		if fs != nil {
			var err = fs.Del(pk)
			if hasFeed && err != nil || !hasFeed && err != data.ErrNoSuchFeed {
				t.fail("%v", err)
			}
		}
		return
	}
	if x < 24 && mutate {
		t.iterateFeeds(fs)
		return
	}
	// a head
	var hs data.Heads
	var err error
	if fs != nil {
		hs, err = fs.Heads(pk)
		if !hasFeed {
			t.op("heads of %x", pk[30:])
			if err != data.ErrNoSuchFeed {
				t.fail("%v", err)
			}
			return
		}
		if err != nil {
			t.op("heads of %x", pk[30:])
			t.fail("%v", err)
			return
		}
	}
	if !hasFeed {
		return
	}
	if x < 40 {
		t.op("add head %x/%d", pk[30:], nonce)
		if !hasHead {
			hm[nonce] = make(Roots)
		}
		if hs != nil {
			if rs, err := hs.Add(nonce); err != nil {
				t.fail("%v", err)
			} else if rs == nil {
				t.fail("no roots returned")
			}
		}
		return
	}
	if x < 44 {
		t.op("del head %x/%d", pk[30:], nonce)
		delete(hm, nonce)
		if hs != nil {
			var err = hs.Del(nonce)
			if hasHead && err != nil || !hasHead && err != data.ErrNoSuchHead {
				t.fail("%v", err)
			}
		}
		return
	}
	var rs data.Roots
	if hs != nil {
		rs, err = hs.Roots(nonce)
		if !hasHead && err != data.ErrNoSuchHead || hasHead && err != nil {
			t.op("roots of %x/%d", pk[30:], nonce)
			t.fail("%v", err)
			return
		}
	}
	if !hasHead {
		return
	}
	if x < 52 && mutate {
		t.iterateRoots(pk, nonce, rs, rm)
		return
	}
	switch {
	case x < 80: // set
		t.op("set %x/%d/%d valid:%v", pk[30:], nonce, root.Seq, valid)
		if valid && !hasRoot {
			rm[root.Seq] = root
		}
		if rs == nil {
			return
		}
		var (
			before = peek(rs, root.Seq)
			given  = root
			err    = rs.Set(&given)
		)
		if valid != (err == nil) {
			t.fail("error %v", err)
			return
		}
		if !valid {
			return
		}
		var after = peek(rs, root.Seq)
		switch {
		case after == nil:
			t.fail("is not stored")
		case !same(&given, &root):
			t.fail("given root is changed")
		case !hasRoot && (given.Create == 0 || given.Access != given.Create ||
			*after != given):
			t.fail("create/access of new one: given %d %d, stored %d %d",
				given.Create, given.Access, after.Create, after.Access)
		case hasRoot && (given.Create != before.Create ||
			given.Access != before.Access || after.Create != before.Create ||
			after.Access < before.Access):
			t.fail("create/access of existing one: before %d %d, given %d %d, "+
				"after %d %d", before.Create, before.Access, given.Create,
				given.Access, after.Create, after.Access)
		}
	case x < 88: // del
		t.op("del %x/%d/%d", pk[30:], nonce, root.Seq)
		delete(rm, root.Seq)
		if rs != nil {
			if err := rs.Del(root.Seq); err != nil {
				t.fail("%v", err)
			}
		}
	default:
		t.op("get %x/%d/%d", pk[30:], nonce, root.Seq)
		if rs == nil {
			return
		}
		var (
			before   = peek(rs, root.Seq)
			got, err = rs.Get(root.Seq)
			after    = peek(rs, root.Seq)
		)
		if !hasRoot {
			if err != data.ErrNotFound {
				t.fail("%v", err)
			}
			return
		}
		if err != nil {
			t.fail("%v", err)
			return
		}
		if *got != *before {
			t.fail("got %v, must be %v", *got, *before)
		} else if !same(after, before) || after.Create != before.Create ||
			after.Access < before.Access {
			t.fail("changed to %v from %v", *after, *before)
		}
	}
}

func (t *tx) iterateFeeds(fs data.Feeds) {
	var (
		r       = t.r
		actions = make([]int, 12)
		adds    = make([]cipher.PubKey, 12)
		stop    = r.Intn(16)
		ret     error
		start   = make(map[cipher.PubKey]bool)
		deleted = make(map[cipher.PubKey]bool)
		seen    = make(map[cipher.PubKey]bool)
		n       int
	)
	for i := range actions {
		actions[i] = r.Intn(5)
		adds[i] = t.p.Pks[r.Intn(len(t.p.Pks))]
	}
	if ret = data.ErrStopIteration; r.Intn(2) == 0 {
		ret = errBreak
	}
	t.op("iterate feeds %v", actions)
	if fs == nil {
		// the model is not able to follow the order
		panic("mutate requires a database")
	}
	for pk := range t.m {
		start[pk] = true
	}
	var stopped bool
	var err = fs.Iterate(func(pk cipher.PubKey) error {
		if stopped {
			t.fail("goes on after stop")
			return errBreak
		}
		if seen[pk] {
			t.fail("%x twice", pk[30:])
			return errBreak
		}
		if _, ok := t.m[pk]; !ok {
			t.fail("visits missing %x", pk[30:])
			return errBreak
		}
		seen[pk] = true
		var i = n % len(actions)
		n++
		switch actions[i] {
		case 0: // delete current
			fs.Del(pk)
			delete(t.m, pk)
			deleted[pk] = true
		case 1: // delete some
			if _, ok := t.m[adds[i]]; ok {
				fs.Del(adds[i])
				delete(t.m, adds[i])
				deleted[adds[i]] = true
			}
		case 2: // add some
			fs.Add(adds[i])
			if _, ok := t.m[adds[i]]; !ok {
				t.m[adds[i]] = make(Heads)
			}
			delete(seen, adds[i]) // can be visited again
			delete(start, adds[i])
		}
		if n-1 == stop {
			stopped = true
			return ret
		}
		return nil
	})
	if t.bad != "" {
		return
	}
	if stopped {
		if ret == data.ErrStopIteration && err != nil || ret == errBreak && err != ret {
			t.fail("returned %v instead of %v", err, ret)
		}
		return
	}
	if err != nil {
		t.fail("%v", err)
	}
	for pk := range start {
		if !seen[pk] && !deleted[pk] {
			t.fail("%x is not visited", pk[30:])
		}
	}
}

func (t *tx) iterateRoots(pk cipher.PubKey, nonce uint64, rs data.Roots, rm Roots) {
	var (
		r       = t.r
		asc     = r.Intn(2) == 0
		actions = make([]int, 12)
		roots   = make([]data.Root, 12)
		stop    = r.Intn(16)
		ret     error
		start   = make(map[uint64]bool)
		deleted = make(map[uint64]bool)
		seen    = make(map[uint64]bool)
		last    uint64
		n       int
		stopped bool
	)
	for i := range actions {
		actions[i] = r.Intn(6)
		for {
			var ok bool
			if roots[i], ok = t.p.root(r); ok {
				break
			}
		}
	}
	if ret = data.ErrStopIteration; r.Intn(2) == 0 {
		ret = errBreak
	}
	t.op("iterate roots %x/%d asc:%v %v", pk[30:], nonce, asc, actions)
	if rs == nil {
		panic("mutate requires a database")
	}
	for seq := range rm {
		start[seq] = true
	}
	var f = func(x *data.Root) error {
		if stopped {
			t.fail("goes on after stop")
			return errBreak
		}
		if n > 0 && (asc && x.Seq <= last || !asc && x.Seq >= last) {
			t.fail("%d after %d", x.Seq, last)
			return errBreak
		}
		last = x.Seq
		var want, ok = rm[x.Seq]
		if !ok {
			t.fail("visits missing %d", x.Seq)
			return errBreak
		}
		if !same(&want, x) {
			t.fail("wrong root %d", x.Seq)
			return errBreak
		}
		seen[x.Seq] = true
		var i = n % len(actions)
		n++
		switch actions[i] {
		case 0:
			rs.Del(x.Seq)
			delete(rm, x.Seq)
		case 1:
			rs.Del(roots[i].Seq)
			delete(rm, roots[i].Seq)
			deleted[roots[i].Seq] = true
		case 2:
			var c = roots[i]
			if err := rs.Set(&c); err != nil {
				t.fail("%v", err)
			}
			if _, ok := rm[c.Seq]; !ok {
				rm[c.Seq] = roots[i]
			}
		}
		if n-1 == stop {
			stopped = true
			return ret
		}
		return nil
	}
	var err error
	if asc {
		err = rs.Ascend(f)
	} else {
		err = rs.Descend(f)
	}
	if t.bad != "" {
		return
	}
	if stopped {
		if ret == data.ErrStopIteration && err != nil || ret == errBreak && err != ret {
			t.fail("returned %v instead of %v", err, ret)
		}
		return
	}
	if err != nil {
		t.fail("%v", err)
	}
	for seq := range start {
		if !seen[seq] && !deleted[seq] {
			t.fail("%d is not visited", seq)
		}
	}
}

// Compare content with the model
func Compare(fs data.Feeds, m Feeds) (bad string) {
	if n := fs.Len(); n != len(m) {
		return fmt.Sprintf("Len of feeds %d, must be %d", n, len(m))
	}
	var seen int
	var last []byte
	var err = fs.Iterate(func(pk cipher.PubKey) error {
		if bytes.Compare(last, pk[:]) >= 0 {
			bad = "feeds: unordered or twice"
			return errBreak
		}
		last = append([]byte{}, pk[:]...)
		seen++
		var hm, ok = m[pk]
		if !ok {
			bad = fmt.Sprintf("unexpected feed %x", pk[30:])
			return errBreak
		}
		if ok, err := fs.Has(pk); !ok || err != nil {
			bad = fmt.Sprintf("Has(%x): %v %v", pk[30:], ok, err)
			return errBreak
		}
		var hs, err = fs.Heads(pk)
		if err != nil {
			return err
		}
		if bad = heads(hs, hm); bad != "" {
			bad = fmt.Sprintf("%x/%s", pk[30:], bad)
			return errBreak
		}
		return nil
	})
	if bad != "" {
		return
	}
	if err != nil {
		return err.Error()
	}
	if seen != len(m) {
		return fmt.Sprintf("visits %d of %d feeds", seen, len(m))
	}
	return
}

func heads(hs data.Heads, m Heads) (bad string) {
	if n := hs.Len(); n != len(m) {
		return fmt.Sprintf("Len of heads %d, must be %d", n, len(m))
	}
	var seen = make(map[uint64]bool)
	var err = hs.Iterate(func(nonce uint64) error {
		var rm, ok = m[nonce]
		if !ok || seen[nonce] {
			bad = fmt.Sprintf("head %d is unexpected or twice", nonce)
			return errBreak
		}
		seen[nonce] = true
		if ok, err := hs.Has(nonce); !ok || err != nil {
			bad = fmt.Sprintf("Has(%d): %v %v", nonce, ok, err)
			return errBreak
		}
		var rs, err = hs.Roots(nonce)
		if err != nil {
			return err
		}
		if bad = roots(rs, rm); bad != "" {
			bad = fmt.Sprintf("%d: %s", nonce, bad)
			return errBreak
		}
		return nil
	})
	if bad != "" {
		return
	}
	if err != nil {
		return err.Error()
	}
	if len(seen) != len(m) {
		return fmt.Sprintf("visits %d of %d heads", len(seen), len(m))
	}
	return
}

func roots(rs data.Roots, m Roots) (bad string) {
	if n := rs.Len(); n != len(m) {
		return fmt.Sprintf("Len of roots %d, must be %d", n, len(m))
	}
	var seqs []uint64
	for s := range m {
		seqs = append(seqs, s)
	}
	sort.Slice(seqs, func(i, j int) bool { return seqs[i] < seqs[j] })
	var check = func(asc bool) {
		var i int
		var all []data.Root
		var f = func(r *data.Root) error {
			if i++; i > len(seqs) {
				return errBreak
			}
			all = append(all, *r)
			return nil
		}
		if asc {
			rs.Ascend(f)
		} else {
			rs.Descend(f)
		}
		if i != len(seqs) {
			bad = fmt.Sprintf("visits %d of %d roots (asc: %v)", i, len(seqs), asc)
			return
		}
		for i := range all {
			var s = seqs[i]
			if !asc {
				s = seqs[len(seqs)-1-i]
			}
			var want = m[s]
			if !same(&all[i], &want) || all[i].Create == 0 || all[i].Access == 0 {
				bad = fmt.Sprintf("root #%d is %d, must be %d (asc: %v)", i,
					all[i].Seq, s, asc)
				return
			}
			if ok, err := rs.Has(s); !ok || err != nil {
				bad = fmt.Sprintf("Has(%d): %v %v", s, ok, err)
				return
			}
		}
	}
	if check(true); bad == "" {
		check(false)
	}
	return
}

// Diff compares content of the database with the model in a transaction
func Diff(db data.IdxDB, m Feeds) (bad string) {
	var err = db.Tx(func(fs data.Feeds) error {
		bad = Compare(fs, m)
		return nil
	})
	if bad == "" && err != nil {
		bad = err.Error()
	}
	return
}

// Load content of the database
func Load(db data.IdxDB) (m Feeds, err error) {
	m = make(Feeds)
	err = db.Tx(func(fs data.Feeds) error {
		return fs.Iterate(func(pk cipher.PubKey) error {
			m[pk] = make(Heads)
			var hs, err = fs.Heads(pk)
			if err != nil {
				return err
			}
			return hs.Iterate(func(nonce uint64) error {
				m[pk][nonce] = make(Roots)
				var rs, err = hs.Roots(nonce)
				if err != nil {
					return err
				}
				return rs.Ascend(func(r *data.Root) error {
					m[pk][nonce][r.Seq] = *r
					return nil
				})
			})
		})
	})
	return
}
