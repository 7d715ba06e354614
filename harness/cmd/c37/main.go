// C37: files of other versions and damaged ones
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/cxm"
	"verif/idxm"
	"verif/kit"

	"github.com/boltdb/bolt"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/skyobject"
)

func main() {
	kit.Main("C37", kit.Opts{
		Rule: "files of both databases with random content get another version, lose the version or the meta information, get a version of wrong length, are replaced with something else, " +
			"or are in use; they are opened alone and by a container; the error, the content and the lock of both files are checked, then the file is repaired and used; " +
			"new and empty files become databases; non-trivial if a file with content is refused; distinct by the damage and the content",
		Need:     []string{"cxds", "idx", "old_version", "new_version", "no_version", "short_version", "no_meta", "not_a_database", "directory", "in_use", "fresh", "empty_file", "containers", "repaired", "no_stat"},
		MinCases: 100,
		Watchdog: 14 * time.Minute,
	}, run)
}

func run(k *kit.K) {
	for i := 0; i < k.N(400, 6000) && k.Bad() < 10; i++ {
		k.Within("hang", fmt.Sprint(i), 2*time.Minute, func() { one(k, k.Rng("file", i), i) })
	}
}

type test struct {
	k        *kit.K
	r        *rand.Rand
	dir      string
	cx, idx  string
	objs     cxm.Model
	feeds    idxm.Feeds
	isCX     bool
	kind     string
	expected error
	any      bool
}

func (t *test) path() string {
	if t.isCX {
		return t.cx
	}
	return t.idx
}

// content of both
func (t *test) fill() (err error) {
	var db *cxm.Store
	if db, err = cxm.Open(t.cx); err != nil {
		return
	}
	defer db.Close()
	var p = cxm.NewPool(t.r, 1+t.r.Intn(12))
	for i := t.r.Intn(30); i > 0; i-- {
		cxm.Step(t.r, p, t.objs, db)
	}
	idx, err := idxdb.NewDriveIdxDB(t.idx)
	if err != nil {
		return
	}
	defer idx.Close()
	var ip = idxm.NewPool(t.r)
	for i := t.r.Intn(4); i > 0; i-- {
		var nm, _, bad, ok = idxm.Tx(t.r, ip, t.feeds, idx, 30, false)
		if bad != "" {
			return fmt.Errorf(bad)
		}
		if ok {
			t.feeds = nm
		}
	}
	return
}

// dump of a file, by bolt
func dump(path string) (s string, err error) {
	b, err := bolt.Open(path, 0644, &bolt.Options{Timeout: 2 * time.Second})
	if err != nil {
		return "", err
	}
	defer b.Close()
	var w strings.Builder
	var walk func(pref string, bk *bolt.Bucket) error
	walk = func(pref string, bk *bolt.Bucket) error {
		return bk.ForEach(func(k, v []byte) error {
			if x := bk.Bucket(k); x != nil {
				return walk(fmt.Sprintf("%s/%x", pref, k), x)
			}
			if string(k) == "safe" && pref == "/6d" {
				return nil // of the last closing
			}
			fmt.Fprintf(&w, "%s/%x=%x\n", pref, k, v)
			return nil
		})
	}
	err = b.View(func(tx *bolt.Tx) error {
		return tx.ForEach(func(name []byte, bk *bolt.Bucket) error {
			fmt.Fprintf(&w, "[%x]\n", name)
			return walk(fmt.Sprintf("/%x", name), bk)
		})
	})
	return w.String(), err
}

func meta(path string, f func(bk *bolt.Bucket, tx *bolt.Tx) error) error {
	b, err := bolt.Open(path, 0644, &bolt.Options{Timeout: 2 * time.Second})
	if err != nil {
		return err
	}
	defer b.Close()
	return b.Update(func(tx *bolt.Tx) error {
		var bk = tx.Bucket([]byte("m"))
		if bk == nil {
			return fmt.Errorf("no meta")
		}
		return f(bk, tx)
	})
}

var version = []byte("version")

// damage the file; undo repairs it
func (t *test) damage() (undo func() error, err error) {
	var path, r = t.path(), t.r
	var cur, old, new, none, noMeta = cxds.Version, cxds.ErrOldVersion, cxds.ErrNewVersion, cxds.ErrMissingVersion, cxds.ErrMissingMetaInfo
	if !t.isCX {
		cur, old, new, none, noMeta = idxdb.Version, idxdb.ErrOldVersion, idxdb.ErrNewVersion, idxdb.ErrMissingVersion, idxdb.ErrMissingMetaInfo
	}
	var was = make([]byte, 4)
	binary.BigEndian.PutUint32(was, uint32(cur))
	var put = func(v []byte) error {
		return meta(path, func(bk *bolt.Bucket, _ *bolt.Tx) error { return bk.Put(version, v) })
	}
	undo = func() error { return put(was) }
	var v = make([]byte, 4)
	switch r.Intn(9) {
	case 0:
		t.kind, t.expected = "old_version", old
		binary.BigEndian.PutUint32(v, uint32(r.Intn(cur)))
		err = put(v)
	case 1:
		t.kind, t.expected = "new_version", new
		binary.BigEndian.PutUint32(v, []uint32{uint32(cur) + 1, uint32(cur) + 1 + uint32(r.Intn(300)), 1 << 31, 1<<32 - 1, uint32(cur) + 1<<16}[r.Intn(5)])
		err = put(v)
	case 2:
		t.kind, t.expected = "no_version", none
		err = meta(path, func(bk *bolt.Bucket, _ *bolt.Tx) error { return bk.Delete(version) })
	case 3:
		t.kind, t.any = "short_version", true
		err = put(was[:1+r.Intn(3)])
	case 4:
		t.kind, t.expected = "no_meta", noMeta
		var kv = make(map[string][]byte)
		err = meta(path, func(bk *bolt.Bucket, tx *bolt.Tx) error {
			bk.ForEach(func(k, v []byte) error { kv[string(k)] = append([]byte{}, v...); return nil })
			return tx.DeleteBucket([]byte("m"))
		})
		undo = func() error {
			b, err := bolt.Open(path, 0644, &bolt.Options{Timeout: 2 * time.Second})
			if err != nil {
				return err
			}
			defer b.Close()
			return b.Update(func(tx *bolt.Tx) error {
				var bk, err = tx.CreateBucket([]byte("m"))
				for k, v := range kv {
					if err == nil {
						err = bk.Put([]byte(k), v)
					}
				}
				return err
			})
		}
	case 5:
		t.kind, t.any = "not_a_database", true
		var b []byte
		if b, err = ioutil.ReadFile(path); err != nil {
			return
		}
		var junk = make([]byte, 1+r.Intn(40000))
		r.Read(junk)
		err = ioutil.WriteFile(path, junk, 0644)
		undo = func() error { return ioutil.WriteFile(path, b, 0644) }
	case 6:
		t.kind, t.any = "directory", true
		if err = os.Rename(path, path+".was"); err == nil {
			err = os.Mkdir(path, 0755)
		}
		undo = func() (err error) {
			if err = os.Remove(path); err == nil {
				err = os.Rename(path+".was", path)
			}
			return
		}
	case 7:
		if r.Intn(4) > 0 { // it takes a time
			return t.damage()
		}
		t.kind, t.any = "in_use", true
		var b *bolt.DB
		b, err = bolt.Open(path, 0644, &bolt.Options{Timeout: 2 * time.Second})
		undo = func() error { return b.Close() }
	case 8:
		if !t.isCX {
			return t.damage()
		}
		t.kind, t.any = "no_stat", true
		var key = []byte([]string{"amount_all", "amount_used", "volume_all", "volume_used"}[r.Intn(4)])
		var was []byte
		var cut = r.Intn(2) == 0
		err = meta(path, func(bk *bolt.Bucket, _ *bolt.Tx) error {
			was = append([]byte{}, bk.Get(key)...)
			if cut && len(was) > 0 {
				return bk.Put(key, was[:1+r.Intn(3)])
			}
			return bk.Delete(key)
		})
		undo = func() error {
			return meta(path, func(bk *bolt.Bucket, _ *bolt.Tx) error { return bk.Put(key, was) })
		}
	}
	return
}

// readable content of the file
func (t *test) state() (s string) {
	switch t.kind {
	case "in_use":
		return ""
	case "not_a_database":
		var b, err = ioutil.ReadFile(t.path())
		return fmt.Sprintf("%x %v", b, err)
	case "directory":
		var es, err = ioutil.ReadDir(t.path())
		return fmt.Sprint(len(es), err)
	}
	var err error
	if s, err = dump(t.path()); err != nil {
		return err.Error()
	}
	return
}

func (t *test) open() (err error) {
	if t.isCX {
		var db, e = cxds.NewDriveCXDS(t.path())
		if e == nil {
			db.Close()
		}
		return e
	}
	var db, e = idxdb.NewDriveIdxDB(t.path())
	if e == nil {
		db.Close()
	}
	return e
}

func (t *test) container() (err error) {
	var c = skyobject.NewConfig()
	c.InMemoryDB = false
	c.DataDir = t.dir
	c.DBPath = filepath.Join(t.dir, "db")
	x, err := skyobject.NewContainer(c)
	if err == nil {
		x.Close()
	}
	return
}

func one(k *kit.K, r *rand.Rand, n int) {
	var dir, err = ioutil.TempDir("", "c37")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var t = &test{k: k, r: r, dir: dir, cx: filepath.Join(dir, "db.cxds"), idx: filepath.Join(dir, "db.idx"), objs: make(cxm.Model), feeds: make(idxm.Feeds)}
	t.isCX = r.Intn(2) == 0
	if r.Intn(10) == 0 {
		t.fresh()
		return
	}
	if err = t.fill(); err != nil {
		k.Violate("fill", fmt.Sprint(n), "%v", err)
		return
	}
	undo, err := t.damage()
	if err != nil {
		panic(err)
	}
	var by = t.open
	var what = "idx"
	if t.isCX {
		what = "cxds"
	}
	k.Count(what, 1)
	k.Count(t.kind, 1)
	if r.Intn(3) == 0 {
		by = t.container
		what += " opened by a container"
		k.Count("containers", 1)
	}
	var cas = fmt.Sprintf("%s with %s\nobjects %s\nfeeds %s", what, t.kind, t.objs, t.feeds)
	var before = t.state()
	for i := 1 + r.Intn(2); i > 0; i-- {
		var err error
		if !k.Guard("panic", cas, func() { err = by() }) {
			undo()
			return
		}
		switch {
		case err == nil:
			k.Violate("accepted", cas, "it's opened")
			undo()
			return
		case !t.any && err != t.expected:
			k.Violate("error", cas, "the error is %q, must be %q", err, t.expected)
			undo()
			return
		}
	}
	if after := t.state(); after != before {
		k.Violate("changed", cas, "the file is changed; it was\n%s\nit is\n%s", cut(before), cut(after))
		return
	}
	if err = undo(); err != nil {
		k.Violate("locked", cas, "the file can't be repaired: %v", err)
		return
	}
	t.use(cas)
	k.Count("repaired", 1)
	k.Case(len(t.objs)+len(t.feeds) > 0, strings.Replace(cas, dir, "", -1))
}

func cut(s string) string {
	if len(s) > 2000 {
		s = s[:2000]
	}
	return s
}

// both files have what was stored
func (t *test) use(cas string) {
	var db, err = cxm.Open(t.cx)
	if err != nil {
		t.k.Violate("open", cas, "cxds: %v", err)
		return
	}
	defer db.Close()
	if s := cxm.Compare(db, t.objs); s != "" {
		t.k.Violate("content", cas, "cxds: %s", s)
	}
	if s := cxm.Stats(db, t.objs); s != "" {
		t.k.Violate("content", cas, "cxds: %s", s)
	}
	idx, err := idxdb.NewDriveIdxDB(t.idx)
	if err != nil {
		t.k.Violate("open", cas, "idx: %v", err)
		return
	}
	defer idx.Close()
	if s := idxm.Diff(idx, t.feeds); s != "" {
		t.k.Violate("content", cas, "idx: %s", s)
	}
}

// a new file or an empty one
func (t *test) fresh() {
	var cas = "new file"
	var paths = []string{t.cx, t.idx}
	if t.r.Intn(2) == 0 {
		cas = "empty file"
		t.k.Count("empty_file", 1)
		for _, p := range paths {
			ioutil.WriteFile(p, nil, 0644)
		}
	} else {
		t.k.Count("fresh", 1)
	}
	if !t.k.Guard("panic", cas, func() {
		if t.r.Intn(2) == 0 {
			if err := t.container(); err != nil {
				t.k.Violate("open", cas, "container: %v", err)
			}
		}
		if err := t.fill(); err != nil {
			t.k.Violate("fill", cas, "%v", err)
		}
		t.use(cas)
	}) {
		return
	}
	var vs []string
	for _, p := range paths { // the version is there
		var s, err = dump(p)
		if err != nil {
			t.k.Violate("open", cas, "%v", err)
			return
		}
		vs = append(vs, s)
	}
	sort.Strings(vs)
	var v = make([]byte, 4)
	for i, ver := range []int{cxds.Version, idxdb.Version} {
		binary.BigEndian.PutUint32(v, uint32(ver))
		if s, _ := dump(paths[i]); !bytes.Contains([]byte(s), []byte(fmt.Sprintf("/%x=%x", version, v))) {
			t.k.Violate("version", cas, "the version is not in the file\n%s", cut(s))
		}
	}
	t.k.Case(false, cas)
}
