From 040f4b7054aa295d94653b1eaa4274c31cc0d465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:05 +0000
Subject: [PATCH 01/83] fix: statutil rolling average is wrong while (and
 after) its window fills

---
 skyobject/statutil/average.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/skyobject/statutil/average.go b/skyobject/statutil/average.go
index 783117e..8e625e7 100644
--- a/skyobject/statutil/average.go
+++ b/skyobject/statutil/average.go
@@ -54,13 +54,15 @@ func NewDuration(n int) (d *Duration) {
 		d.mx.Lock()
 		defer d.mx.Unlock()
 
+		var x = float64(dur)
+
 		if c < n {
 			c++
+			average += (x - average) / float64(c) // the window is not full
+		} else {
+			average += (x - bins[i]) / float64(n)
 		}
 
-		var x = float64(dur)
-
-		average += (x - bins[i]) / float64(c)
 		bins[i] = x
 		i = (i + 1) % n
 
@@ -115,13 +117,15 @@ func NewFloat(n int) (f *Float) {
 		f.mx.Lock()
 		defer f.mx.Unlock()
 
+		var x = float64(dur)
+
 		if c < n {
 			c++
+			average += (x - average) / float64(c) // the window is not full
+		} else {
+			average += (x - bins[i]) / float64(n)
 		}
 
-		var x = float64(dur)
-
-		average += (x - bins[i]) / float64(c)
 		bins[i] = x
 		i = (i + 1) % n
 
-- 
2.43.0


From 9993e376ec4a91b83853853950e34daf047cb9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:05 +0000
Subject: [PATCH 02/83] fix: -debug-pins flag has no effect

---
 node/log/log.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/node/log/log.go b/node/log/log.go
index a8784de..40f2428 100644
--- a/node/log/log.go
+++ b/node/log/log.go
@@ -52,14 +52,10 @@ func (c *Config) FromFlags() {
 		c.Debug,
 		"print debug logs")
 
-	var pins uint
-
-	flag.UintVar(&pins,
+	flag.UintVar((*uint)(&c.Pins),
 		"debug-pins",
 		uint(c.Pins),
 		"debug pins (default all)")
-
-	c.Pins = Pin(pins)
 }
 
 // A Logger is similar to log.Logger with Debug methods.
-- 
2.43.0


From 72aa9e3582cb5f5fde57e913dfb5a98d7bdcd8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:05 +0000
Subject: [PATCH 03/83] fix: log Error and Errorln print arguments as a slice

---
 node/log/log.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/node/log/log.go b/node/log/log.go
index 40f2428..678c7bb 100644
--- a/node/log/log.go
+++ b/node/log/log.go
@@ -183,15 +183,15 @@ func (l *logger) Error(err error, args ...interface{}) {
 		"[ERR] ",
 		fmt.Sprintf("err=%s ", err),
 	}
-	l.Output(2, fmt.Sprint(append(errArgs, args...)))
+	l.Output(2, fmt.Sprint(append(errArgs, args...)...))
 }
 
 func (l *logger) Errorln(err error, args ...interface{}) {
 	errArgs := []interface{}{
-		"[ERR] ",
-		fmt.Sprintf("err=%s ", err),
+		"[ERR]",
+		fmt.Sprintf("err=%s", err),
 	}
-	l.Output(2, fmt.Sprint(append(errArgs, args...)))
+	l.Output(2, fmt.Sprintln(append(errArgs, args...)...))
 }
 
 func (l *logger) Errorf(err error, format string, args ...interface{}) {
-- 
2.43.0


From 3958bcc6f312aecef2de39172c7919fc898a8fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 04/83] fix: log Errorf uses text of the error as a format

---
 node/log/log.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/node/log/log.go b/node/log/log.go
index 678c7bb..546fd45 100644
--- a/node/log/log.go
+++ b/node/log/log.go
@@ -195,8 +195,7 @@ func (l *logger) Errorln(err error, args ...interface{}) {
 }
 
 func (l *logger) Errorf(err error, format string, args ...interface{}) {
-	format = "[ERR] " + fmt.Sprintf("err=%s ", err) + format
-	l.Output(2, fmt.Sprintf(format, args...))
+	l.Output(2, fmt.Sprintf("[ERR] err=%s ", err)+fmt.Sprintf(format, args...))
 }
 
 func (l *logger) Pins() Pin {
-- 
2.43.0


From 6ccc5e669ba2ddc10381ee833a6e2726f75d0d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 05/83] fix: Del of in-memory CXDS does not delete the object

---
 data/cxds/memory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data/cxds/memory.go b/data/cxds/memory.go
index 1e6a91c..8149667 100644
--- a/data/cxds/memory.go
+++ b/data/cxds/memory.go
@@ -196,6 +196,8 @@ func (m *memoryCXDS) Del(key cipher.SHA256) (_ error) {
 	m.amountAll--
 	m.voluemAll -= len(mo.val)
 
+	delete(m.kvs, key)
+
 	return
 }
 
-- 
2.43.0


From 6eeb57278e6ec57cc2b055c81a534d201c798658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 06/83] fix: Set of on-disk CXDS ignores inc argument for new
 objects

---
 data/cxds/drive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 6dc0d0f..3075b63 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -379,7 +379,7 @@ func (d *driveCXDS) Set(
 			// created
 			d.addAll(len(val))
 
-			rc, err = d.incr(o, key[:], val, 0, 1)
+			rc, err = d.incr(o, key[:], val, 0, inc)
 			return
 		}
 
-- 
2.43.0


From 3a5dfb885141bcdacc52435c4ec1402dca228625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 07/83] fix: on-disk CXDS saves its version instead of the
 statistic

---
 data/cxds/cxds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/cxds/cxds.go b/data/cxds/cxds.go
index acb4d62..cf495da 100644
--- a/data/cxds/cxds.go
+++ b/data/cxds/cxds.go
@@ -56,7 +56,7 @@ func versionBytes() []byte {
 
 func encodeUint32(u uint32) (ub []byte) {
 	ub = make([]byte, 4)
-	binary.BigEndian.PutUint32(ub, uint32(Version))
+	binary.BigEndian.PutUint32(ub, u)
 	return
 }
 
-- 
2.43.0


From e5cca7c044baf6aa2cf6b9a54028f1e5e357fb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 08/83] fix: statistic of on-disk CXDS is lost on crash and
 wrong after failed transaction

---
 data/cxds/drive.go | 105 +++++++++++++++++++++++++++++----------------
 1 file changed, 68 insertions(+), 37 deletions(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 3075b63..0b273e3 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -28,7 +28,8 @@ var (
 )
 
 type driveCXDS struct {
-	mx sync.Mutex // lock amounts and volumes
+	umx sync.Mutex // lock read-write transactions
+	mx  sync.Mutex // lock amounts and volumes
 
 	amountAll  int // amount of all objects
 	amountUsed int // amount of used objects
@@ -70,8 +71,6 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 
 	}()
 
-	var saveStat bool
-
 	err = b.Update(func(tx *bolt.Tx) (err error) {
 
 		// first of all, take a look the meta bucket
@@ -95,9 +94,11 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 				return
 			}
 
-			// put stat
+			// put stat (zeroes) in the same transaction
 
-			saveStat = true // save zeroes
+			if err = new(driveCXDS).putStat(tx); err != nil {
+				return
+			}
 
 		} else {
 
@@ -131,13 +132,7 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 
 	// stat
 
-	if saveStat == true {
-		err = dr.saveStat()
-	} else {
-		err = dr.loadStat()
-	}
-
-	if err != nil {
+	if err = dr.loadStat(); err != nil {
 		return
 	}
 
@@ -197,44 +192,80 @@ func (d *driveCXDS) loadStat() (err error) {
 
 func (d *driveCXDS) saveStat() (err error) {
 
+	return d.b.Update(d.putStat)
+}
+
+// putStat saves the stat inside given transaction
+func (d *driveCXDS) putStat(tx *bolt.Tx) (err error) {
+
 	d.mx.Lock()
 	defer d.mx.Unlock()
 
-	return d.b.Update(func(tx *bolt.Tx) (err error) {
+	var info = tx.Bucket(metaBucket)
 
-		var info = tx.Bucket(metaBucket)
+	// amount all
 
-		// amount all
+	err = info.Put(amountAllKey, encodeUint32(uint32(d.amountAll)))
 
-		err = info.Put(amountAllKey, encodeUint32(uint32(d.amountAll)))
+	if err != nil {
+		return
+	}
 
-		if err != nil {
-			return
-		}
+	// amount used
 
-		// amount used
+	err = info.Put(amountUsedKey, encodeUint32(uint32(d.amountUsed)))
 
-		err = info.Put(amountUsedKey, encodeUint32(uint32(d.amountUsed)))
+	if err != nil {
+		return
+	}
 
-		if err != nil {
-			return
-		}
+	// volume all
 
-		// volume all
+	err = info.Put(volumeAllKey, encodeUint32(uint32(d.volumeAll)))
 
-		err = info.Put(volumeAllKey, encodeUint32(uint32(d.volumeAll)))
+	if err != nil {
+		return
+	}
 
-		if err != nil {
-			return
-		}
+	// volume used
 
-		// volume used
+	err = info.Put(volumeUsedKey, encodeUint32(uint32(d.volumeUsed)))
+	return
 
-		err = info.Put(volumeUsedKey, encodeUint32(uint32(d.volumeUsed)))
-		return
+}
+
+// update performs read-write transaction; the transaction
+// saves the stat, thus the stat on disk is always actual;
+// the stat is restored if the transaction fails
+func (d *driveCXDS) update(txFunc func(tx *bolt.Tx) error) (err error) {
+
+	d.umx.Lock()
+	defer d.umx.Unlock()
+
+	d.mx.Lock()
+	var aa, au, va, vu = d.amountAll, d.amountUsed, d.volumeAll, d.volumeUsed
+	d.mx.Unlock()
 
+	var done bool
+
+	defer func() {
+		if done == true {
+			return
+		}
+		d.mx.Lock()
+		defer d.mx.Unlock()
+		d.amountAll, d.amountUsed, d.volumeAll, d.volumeUsed = aa, au, va, vu
+	}()
+
+	err = d.b.Update(func(tx *bolt.Tx) (err error) {
+		if err = txFunc(tx); err != nil {
+			return
+		}
+		return d.putStat(tx)
 	})
 
+	done = (err == nil)
+	return
 }
 
 func (d *driveCXDS) av(rc, nrc uint32, vol int) {
@@ -330,7 +361,7 @@ func (d *driveCXDS) Get(
 	if inc == 0 {
 		err = d.b.View(tx) // lookup only
 	} else {
-		err = d.b.Update(tx) // some changes
+		err = d.update(tx) // some changes
 	}
 
 	return
@@ -367,7 +398,7 @@ func (d *driveCXDS) Set(
 		return
 	}
 
-	err = d.b.Update(func(tx *bolt.Tx) (err error) {
+	err = d.update(func(tx *bolt.Tx) (err error) {
 
 		var (
 			o   = tx.Bucket(objsBucket)
@@ -423,7 +454,7 @@ func (d *driveCXDS) Inc(
 	if inc == 0 {
 		err = d.b.View(tx) // lookup only
 	} else {
-		err = d.b.Update(tx) // changes required
+		err = d.update(tx) // changes required
 	}
 
 	return
@@ -450,7 +481,7 @@ func (d *driveCXDS) Del(
 	err error,
 ) {
 
-	err = d.b.Update(func(tx *bolt.Tx) (err error) {
+	err = d.update(func(tx *bolt.Tx) (err error) {
 
 		var (
 			o   = tx.Bucket(objsBucket)
@@ -509,7 +540,7 @@ func (d *driveCXDS) IterateDel(
 	err error,
 ) {
 
-	err = d.b.Update(func(tx *bolt.Tx) (err error) {
+	err = d.update(func(tx *bolt.Tx) (err error) {
 
 		var (
 			key cipher.SHA256
-- 
2.43.0


From 4da67389c923798bb16a75ff80b9f3a2fd78ca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:29 +0000
Subject: [PATCH 09/83] fix: Len of feeds, heads and roots of IdxDB is wrong

---
 data/idxdb/drive.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index c4e06d0..6e7dadc 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -179,7 +179,7 @@ func (d *driveFeeds) Heads(pk cipher.PubKey) (rs data.Heads, err error) {
 }
 
 func (d *driveFeeds) Len() (length int) {
-	return d.bk.Stats().BucketN - 1
+	return bucketLen(d.bk)
 }
 
 type driveHeads struct {
@@ -251,7 +251,7 @@ func (d *driveHeads) Iterate(iterateFunc data.IterateHeadsFunc) (err error) {
 }
 
 func (d *driveHeads) Len() (length int) {
-	return d.bk.Stats().BucketN - 1
+	return bucketLen(d.bk)
 }
 
 type driveRoots struct {
@@ -401,7 +401,18 @@ func (d *driveRoots) Has(seq uint64) (yep bool, _ error) {
 
 // Len returns amount of Root objects
 func (d *driveRoots) Len() int {
-	return d.bk.Stats().KeyN
+	return bucketLen(d.bk)
+}
+
+// bucketLen is number of elements of the bucket. The
+// bolt.Bucket.Stats counts elements of nested buckets and
+// doesn't count changes of current transaction
+func bucketLen(bk *bolt.Bucket) (length int) {
+	var c = bk.Cursor()
+	for k, _ := c.First(); k != nil; k, _ = c.Next() {
+		length++
+	}
+	return
 }
 
 func utob(u uint64) (p []byte) {
-- 
2.43.0


From 843b9507775fafcf5b5b4072be9f186886ff57ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:29 +0000
Subject: [PATCH 10/83] fix: Ascend never ends if seq of a Root is the greatest
 possible

---
 data/idxdb/drive.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index 6e7dadc..eeb38d3 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -284,7 +284,9 @@ func (d *driveRoots) Ascend(iterateFunc data.IterateRootsFunc) (err error) {
 			return
 		}
 
-		seq++
+		if seq++; seq == 0 {
+			return // it was the greatest seq possible
+		}
 		binary.BigEndian.PutUint64(sb, seq)
 		seqb = sb
 	}
-- 
2.43.0


From 032eaca146cf00777f8fe2cbe14d4fdbc7482565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:29 +0000
Subject: [PATCH 11/83] fix: DB can not be opened if its creation was
 interrupted

---
 data/cxds/drive.go  | 7 ++++---
 data/idxdb/drive.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 0b273e3..70b7e61 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -78,9 +78,10 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 
 		if info == nil {
 
-			// if the file has not been created, then
-			// this DB file seems outdated (version 0)
-			if created == false {
+			// if the file has not been created and it is not blank
+			// (creation has been interrupted), then this DB file
+			// seems outdated (version 0)
+			if k, _ := tx.Cursor().First(); created == false && k != nil {
 				return ErrMissingMetaInfo // report
 			}
 
diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index eeb38d3..3369915 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -48,9 +48,10 @@ func NewDriveIdxDB(fileName string) (idx data.IdxDB, err error) {
 
 		if info == nil {
 
-			// if the file has not been created, then
-			// this DB file seems outdated (version 0)
-			if created == false {
+			// if the file has not been created and it is not blank
+			// (creation has been interrupted), then this DB file
+			// seems outdated (version 0)
+			if k, _ := tx.Cursor().First(); created == false && k != nil {
 				return ErrMissingMetaInfo // report
 			}
 
-- 
2.43.0


From 2c1d39dff79e5329accfe559b1ee70bf5b561638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:31 +0000
Subject: [PATCH 12/83] fix: arrays and slices with references can not be
 walked and filled

The check of the element schema was inverted, thus every array or slice
that contains references was refused.
---
 skyobject/registry/split.go | 4 ++--
 skyobject/registry/walk.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/skyobject/registry/split.go b/skyobject/registry/split.go
index 9886274..d3c3a28 100644
--- a/skyobject/registry/split.go
+++ b/skyobject/registry/split.go
@@ -201,7 +201,7 @@ func splitArray(
 ) {
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		s.Fail(fmt.Errorf("Schema of element of array %q is nil", sch))
 		return
 	}
@@ -227,7 +227,7 @@ func splitSlice(
 	}
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		s.Fail(fmt.Errorf("Schema of element of slice %q is nil", sch))
 		return
 	}
diff --git a/skyobject/registry/walk.go b/skyobject/registry/walk.go
index b9173c3..0dc1991 100644
--- a/skyobject/registry/walk.go
+++ b/skyobject/registry/walk.go
@@ -136,7 +136,7 @@ func walkArray(
 ) {
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		// just avoid panic if the Scehma is invlaid;
 		// any invalid Schema shuld not break CXO, since
 		// we are not trusting remote nodes, even if they
@@ -165,7 +165,7 @@ func walkSlice(
 	}
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		return fmt.Errorf("Schema of element of slice %q is nil", sch)
 	}
 
-- 
2.43.0


From a2bf613b0345fc22c8a61832c99e794799a99dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 13/83] fix: ErrStopIteration does not stop a walk if it is
 returned for nested references

Walk of a nested Ref, Refs or Dynamic hid the error from the walk it is
part of, thus walking went on.
---
 skyobject/registry/dynamic.go   | 33 +++++++++---------
 skyobject/registry/ref.go       | 26 +++++++++-----
 skyobject/registry/refs_walk.go | 60 ++++++++++++++-------------------
 skyobject/registry/root.go      |  2 +-
 skyobject/registry/walk.go      |  6 ++--
 5 files changed, 65 insertions(+), 62 deletions(-)

diff --git a/skyobject/registry/dynamic.go b/skyobject/registry/dynamic.go
index 6af04ab..1c48df2 100644
--- a/skyobject/registry/dynamic.go
+++ b/skyobject/registry/dynamic.go
@@ -110,19 +110,28 @@ func (d *Dynamic) Walk(
 		panic("walkFunc is nil") // for developers
 	}
 
+	if err = d.walk(pack, walkFunc); err == ErrStopIteration {
+		err = nil // suppress this error
+	}
+
+	return
+}
+
+// walk is the Walk that doesn't hide the ErrStopIteration; thus
+// a walking of which this one is a part can be stopped too
+func (d *Dynamic) walk(
+	pack Pack, //         :
+	walkFunc WalkFunc, // :
+) (
+	err error, //         :
+) {
+
 	if d.IsValid() == false {
 		return ErrInvalidDynamicReference
 	}
 
 	var deepper bool
-	if deepper, err = walkFunc(d.Hash, 0); err != nil {
-		if err == ErrStopIteration {
-			err = nil // suppress this error
-		}
-		return
-	}
-
-	if deepper == false {
+	if deepper, err = walkFunc(d.Hash, 0); err != nil || deepper == false {
 		return
 	}
 
@@ -140,13 +149,7 @@ func (d *Dynamic) Walk(
 		return
 	}
 
-	err = walkSchemaHash(pack, sch, d.Hash, walkFunc)
-
-	if err == ErrStopIteration {
-		err = nil // suppress this error
-	}
-
-	return
+	return walkSchemaHash(pack, sch, d.Hash, walkFunc)
 }
 
 // Split used by the node package to fill the Dynamic.
diff --git a/skyobject/registry/ref.go b/skyobject/registry/ref.go
index 2ac72ba..73739cb 100644
--- a/skyobject/registry/ref.go
+++ b/skyobject/registry/ref.go
@@ -104,6 +104,23 @@ func (r *Ref) Walk(
 	err error,
 ) {
 
+	if err = r.walk(pack, sch, walkFunc); err == ErrStopIteration {
+		err = nil
+	}
+
+	return
+}
+
+// walk is the Walk that doesn't hide the ErrStopIteration; thus
+// a walking of which this one is a part can be stopped too
+func (r *Ref) walk(
+	pack Pack, //         :
+	sch Schema, //        :
+	walkFunc WalkFunc, // :
+) (
+	err error, //         :
+) {
+
 	var deepper bool
 	if deepper, err = walkFunc(r.Hash, 0); err != nil || deepper == false {
 		return
@@ -113,14 +130,7 @@ func (r *Ref) Walk(
 		return // ignore the deepper
 	}
 
-	err = walkSchemaHash(pack, sch, r.Hash, walkFunc)
-
-	if err == ErrStopIteration {
-		err = nil
-	}
-
-	return
-
+	return walkSchemaHash(pack, sch, r.Hash, walkFunc)
 }
 
 // Split used by the node package to fill the Ref
diff --git a/skyobject/registry/refs_walk.go b/skyobject/registry/refs_walk.go
index 6b88015..d8fea6f 100644
--- a/skyobject/registry/refs_walk.go
+++ b/skyobject/registry/refs_walk.go
@@ -44,9 +44,7 @@ type WalkFunc func(
 // walk if the Refs is blank
 func (r *Refs) walkBlank(walkFunc WalkFunc) (err error) {
 	// the depth can't be zero
-	if _, err = walkFunc(r.Hash, 1); err == ErrStopIteration {
-		err = nil
-	}
+	_, err = walkFunc(r.Hash, 1)
 	return // done
 }
 
@@ -97,6 +95,23 @@ func (r *Refs) Walk(
 		panic("walkFunc is nil") // for developers
 	}
 
+	if err = r.walk(pack, sch, walkFunc); err == ErrStopIteration {
+		err = nil
+	}
+
+	return
+}
+
+// walk is the Walk that doesn't hide the ErrStopIteration; thus
+// a walking of which this one is a part can be stopped too
+func (r *Refs) walk(
+	pack Pack, //             : pack to save and load
+	sch Schema, //            : schema of elements of the Refs
+	walkFunc WalkFunc, //     : the function
+) (
+	err error, //             : an error
+) {
+
 	var resetRequired bool
 
 	defer func() {
@@ -155,22 +170,13 @@ func (r *Refs) Walk(
 
 	// starting from Root (depth + 1 for the root)
 	if deepper, err = walkFunc(r.Hash, r.depth+1); err != nil {
-		if err == ErrStopIteration {
-			err = nil
-		}
 		return
 	} else if deepper == false {
 		return // done
 	}
 
 	// walk from nodes
-	err = r.walkNode(pack, sch, r.refsNode, r.depth, walkFunc)
-
-	if err == ErrStopIteration {
-		err = nil
-	}
-
-	return
+	return r.walkNode(pack, sch, r.refsNode, r.depth, walkFunc)
 
 }
 
@@ -188,28 +194,18 @@ func (r *Refs) walkNode(
 
 	if depth == 0 {
 
-		// the deepper ignored
-
 		for _, leaf := range rn.leafs {
 
 			if deepper, err = walkFunc(leaf.Hash, depth); err != nil {
-
-				if err == ErrStopIteration {
-					err = nil
-				}
 				return
+			} else if deepper == false {
+				continue // skip it
+			}
 
-			} else if deepper == true {
-
-				err = walkSchemaHash(pack, sch, leaf.Hash, walkFunc)
-
-				if err != nil {
-					if err == ErrStopIteration {
-						err = nil
-					}
-					return
-				}
+			err = walkSchemaHash(pack, sch, leaf.Hash, walkFunc)
 
+			if err != nil {
+				return
 			}
 
 		}
@@ -226,9 +222,6 @@ func (r *Refs) walkNode(
 		// leafs
 
 		if deepper, err = walkFunc(br.hash, depth); err != nil {
-			if err == ErrStopIteration {
-				err = nil
-			}
 			return
 		} else if deepper == false {
 			continue // let's look at the next brnahc
@@ -241,9 +234,6 @@ func (r *Refs) walkNode(
 		}
 
 		if err = r.walkNode(pack, sch, br, depth-1, walkFunc); err != nil {
-			if err == ErrStopIteration {
-				err = nil
-			}
 			return
 		}
 
diff --git a/skyobject/registry/root.go b/skyobject/registry/root.go
index 3f60d78..994d62e 100644
--- a/skyobject/registry/root.go
+++ b/skyobject/registry/root.go
@@ -96,7 +96,7 @@ func DecodeRoot(val []byte) (r *Root, err error) {
 func (r *Root) Walk(pack Pack, walkFunc WalkFunc) (err error) {
 
 	for _, dr := range r.Refs {
-		if err = dr.Walk(pack, walkFunc); err != nil {
+		if err = dr.walk(pack, walkFunc); err != nil {
 			if err == ErrStopIteration {
 				err = nil
 			}
diff --git a/skyobject/registry/walk.go b/skyobject/registry/walk.go
index 0dc1991..852a8dc 100644
--- a/skyobject/registry/walk.go
+++ b/skyobject/registry/walk.go
@@ -94,7 +94,7 @@ func walkSchemaReference(
 			return
 		}
 
-		return ref.Walk(pack, el, walkFunc)
+		return ref.walk(pack, el, walkFunc)
 
 	case ReferenceTypeSlice: // Refs
 
@@ -108,7 +108,7 @@ func walkSchemaReference(
 			return
 		}
 
-		return refs.Walk(pack, el, walkFunc)
+		return refs.walk(pack, el, walkFunc)
 
 	case ReferenceTypeDynamic: // Dynamic
 
@@ -116,7 +116,7 @@ func walkSchemaReference(
 		if _, err = encoder.DeserializeRaw(val, &dr); err != nil {
 			return
 		}
-		return dr.Walk(pack, walkFunc)
+		return dr.walk(pack, walkFunc)
 
 	default:
 
-- 
2.43.0


From 89cb093e51bfd26960f2377a2034987e3d0dbb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 14/83] fix: walk through Refs fails if the Refs contains blank
 elements

---
 skyobject/registry/refs_walk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skyobject/registry/refs_walk.go b/skyobject/registry/refs_walk.go
index d8fea6f..551ba81 100644
--- a/skyobject/registry/refs_walk.go
+++ b/skyobject/registry/refs_walk.go
@@ -198,8 +198,8 @@ func (r *Refs) walkNode(
 
 			if deepper, err = walkFunc(leaf.Hash, depth); err != nil {
 				return
-			} else if deepper == false {
-				continue // skip it
+			} else if deepper == false || leaf.Hash == (cipher.SHA256{}) {
+				continue // skip it, or there is nothing to walk through
 			}
 
 			err = walkSchemaHash(pack, sch, leaf.Hash, walkFunc)
-- 
2.43.0


From ac201025b5f4d1d542b19c1edd3156547620af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:16 +0000
Subject: [PATCH 15/83] fix: invalid encoded registry crashes or hangs a node

DecodeRegistry ignored errors of nested decoding, panicked if a schema was
missing, and overflowed stack on, or expanded exponentially, schemas that
contain themselves.
---
 skyobject/registry/registry.go | 170 +++++++++++++++++++++++++++------
 skyobject/registry/schema.go   |   6 +-
 2 files changed, 145 insertions(+), 31 deletions(-)

diff --git a/skyobject/registry/registry.go b/skyobject/registry/registry.go
index 2803ada..33fc5e7 100644
--- a/skyobject/registry/registry.go
+++ b/skyobject/registry/registry.go
@@ -2,6 +2,7 @@ package registry
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 	"strings"
@@ -48,16 +49,22 @@ func DecodeRegistry(b []byte) (r *Registry, err error) {
 		return
 	}
 
-	r = newRegistry()
+	var reg = newRegistry()
 
 	for _, re := range res {
-		s, err = decodeSchema(re.Schema)
-		r.reg[re.Name] = s
-		r.srf[s.Reference()] = s
+		if s, err = decodeSchema(re.Schema, 0); err != nil {
+			return
+		}
+		reg.reg[re.Name] = s
 	}
 
-	r.finialize()
-	return
+	// encoded schemas of the registry can't be
+	// bigger than the encoded registry
+	if err = reg.finialize(len(b)); err != nil {
+		return
+	}
+
+	return reg, nil
 }
 
 // NewRegistry creates filled up Registry using provided
@@ -78,7 +85,10 @@ func NewRegistry(cl func(t *Reg)) (r *Registry) {
 	r.nt = make(map[string]reflect.Type)
 
 	r.register(reg)
-	r.finialize()
+
+	if err := r.finialize(math.MaxInt64); err != nil {
+		panic(err)
+	}
 
 	return
 }
@@ -150,25 +160,29 @@ func (r *Registry) register(reg *Reg) {
 
 // set proper references for schemas that has references to
 // another schemas, such as arrays, slices and structs
-func (r *Registry) fillSchema(s Schema, filled map[Schema]struct{}) {
+func (r *Registry) fillSchema(
+	s Schema,
+	filled map[Schema]struct{},
+) (
+	err error,
+) {
 	if _, ok := filled[s]; ok {
 		return // already
 	}
 	filled[s] = struct{}{} // filling
-	var err error
 	if s.IsReference() {
 		switch s.ReferenceType() {
 		case ReferenceTypeSingle, ReferenceTypeSlice:
 			x := s.(*referenceSchema)
 			x.elem, err = r.schemaByName(x.elem.Name())
 			if err != nil {
-				panic(err)
+				return
 			}
-			r.fillSchema(x.elem, filled)
+			return r.fillSchema(x.elem, filled)
 		case ReferenceTypeDynamic:
 			// do nothing
 		default:
-			panic("invalid reference: " + s.String())
+			err = ErrInvalidEncodedSchema
 		}
 		return
 	}
@@ -178,32 +192,108 @@ func (r *Registry) fillSchema(s Schema, filled map[Schema]struct{}) {
 		if s.Elem().IsRegistered() {
 			x.elem, err = r.schemaByName(s.Elem().Name())
 			if err != nil {
-				panic(err)
+				return
 			}
 		}
-		r.fillSchema(x.elem, filled)
+		return r.fillSchema(x.elem, filled)
 	case reflect.Slice:
 		x := s.(*sliceSchema)
 		if s.Elem().IsRegistered() {
 			x.elem, err = r.schemaByName(s.Elem().Name())
 			if err != nil {
-				panic(err)
+				return
 			}
 		}
-		r.fillSchema(x.elem, filled)
+		return r.fillSchema(x.elem, filled)
 	case reflect.Struct:
 		for i, f := range s.Fields() {
 			x := f.(*field)
 			if fs := f.Schema(); fs.IsRegistered() {
 				x.schema, err = r.schemaByName(fs.Name())
 				if err != nil {
-					panic(err)
+					return
 				}
 			}
-			r.fillSchema(x.schema, filled)
+			if err = r.fillSchema(x.schema, filled); err != nil {
+				return
+			}
 			s.(*structSchema).fields[i] = x
 		}
 	}
+	return
+}
+
+// schemaInfo used to check a Schema
+type schemaInfo struct {
+	size    int  // size of encoded Schema is not less
+	refs    bool // the Schema contains references
+	checked bool // false for a Schema the check of which is not finished
+}
+
+// checkSchema of a filled Registry. A Registry received from a remote peer
+// can contain invalid schemas. For example, a struct that contains itself,
+// or small struct that grows up exponentially because of nested structs. The
+// limit is limit of size of the encoded Schema
+func (r *Registry) checkSchema(
+	s Schema,
+	limit int,
+	infos map[Schema]*schemaInfo,
+) (
+	info *schemaInfo,
+	err error,
+) {
+
+	var ok bool
+	if info, ok = infos[s]; ok == true {
+		if info.checked == false {
+			err = ErrInvalidEncodedSchema // contains itself
+		}
+		return
+	}
+
+	info = &schemaInfo{size: 1 + len(s.RawName())}
+	infos[s] = info
+
+	var el *schemaInfo // element or field
+
+	switch x := s.(type) {
+
+	case *referenceSchema:
+
+		info.refs = true
+
+	case *sliceSchema, *arraySchema:
+
+		if el, err = r.checkSchema(x.Elem(), limit, infos); err != nil {
+			return
+		}
+		info.refs = el.refs
+
+		if x.Elem().IsRegistered() == false {
+			info.size += el.size // a registered one is encoded as its name
+		}
+
+	case *structSchema:
+
+		for _, f := range x.fields {
+			if el, err = r.checkSchema(f.Schema(), limit, infos); err != nil {
+				return
+			}
+			info.refs = info.refs || el.refs
+			info.size += el.size + len(f.RawName()) + len(f.RawTag())
+
+			if info.size > limit {
+				err = ErrInvalidEncodedSchema
+				return
+			}
+		}
+
+		x.refs = info.refs
+
+	}
+
+	info.checked = true
+	return
 }
 
 func (r *Registry) schemaByName(name string) (s Schema, err error) {
@@ -214,10 +304,26 @@ func (r *Registry) schemaByName(name string) (s Schema, err error) {
 	return
 }
 
-func (r *Registry) finialize() {
+// the limit is limit of size of the encoded Registry
+func (r *Registry) finialize(limit int) (err error) {
 	filled := make(map[Schema]struct{})
 	for _, sch := range r.reg {
-		r.fillSchema(sch, filled)
+		if err = r.fillSchema(sch, filled); err != nil {
+			return
+		}
+	}
+
+	var (
+		infos = make(map[Schema]*schemaInfo)
+		info  *schemaInfo
+	)
+	for _, sch := range r.reg {
+		if info, err = r.checkSchema(sch, limit, infos); err != nil {
+			return
+		}
+		if limit -= info.size; limit < 0 {
+			return ErrInvalidEncodedSchema
+		}
 	}
 
 	// fill up map by SchemaRef
@@ -227,6 +333,7 @@ func (r *Registry) finialize() {
 
 	encoded := r.Encode()
 	r.ref = RegistryRef(cipher.SumSHA256(encoded))
+	return
 }
 
 // TagSchemaName returns schema name from given reflect.StructTag.
@@ -272,7 +379,16 @@ func typeOf(i interface{}) reflect.Type {
 
 // decode schema
 
-func decodeSchema(b []byte) (s Schema, err error) {
+// limit of nested schemas, the decoding is
+// recursive and the data is not trusted
+const maxSchemaDepth = 128
+
+func decodeSchema(b []byte, depth int) (s Schema, err error) {
+
+	if depth++; depth > maxSchemaDepth {
+		return nil, ErrInvalidEncodedSchema
+	}
+
 	// type encodedSchema struct {
 	// 	ReferenceType uint32
 	// 	Kind   uint32
@@ -300,7 +416,7 @@ func decodeSchema(b []byte) (s Schema, err error) {
 		rs.kind = reflect.Kind(x.Kind)
 		rs.typ = ReferenceType(x.ReferenceType)
 		if rs.typ != ReferenceTypeDynamic {
-			if rs.elem, err = decodeSchema(x.Elem); err != nil {
+			if rs.elem, err = decodeSchema(x.Elem, depth); err != nil {
 				return
 			}
 		}
@@ -321,7 +437,7 @@ func decodeSchema(b []byte) (s Schema, err error) {
 	case reflect.Slice:
 		ss := sliceSchema{}
 		ss.schema = sc
-		if ss.elem, err = decodeSchema(x.Elem); err != nil {
+		if ss.elem, err = decodeSchema(x.Elem, depth); err != nil {
 			return
 		}
 		s = &ss
@@ -329,7 +445,7 @@ func decodeSchema(b []byte) (s Schema, err error) {
 		as := arraySchema{}
 		as.schema = sc
 		as.length = int(x.Len)
-		if as.elem, err = decodeSchema(x.Elem); err != nil {
+		if as.elem, err = decodeSchema(x.Elem, depth); err != nil {
 			return
 		}
 		s = &as
@@ -338,7 +454,7 @@ func decodeSchema(b []byte) (s Schema, err error) {
 		ss.schema = sc
 		var f Field
 		for _, ef := range x.Fields {
-			if f, err = decodeField(ef); err != nil {
+			if f, err = decodeField(ef, depth); err != nil {
 				return
 			}
 			ss.fields = append(ss.fields, f)
@@ -351,7 +467,7 @@ func decodeSchema(b []byte) (s Schema, err error) {
 	return
 }
 
-func decodeField(b []byte) (f Field, err error) {
+func decodeField(b []byte, depth int) (f Field, err error) {
 	var ef encodedField
 	if _, err = encoder.DeserializeRaw(b, &ef); err != nil {
 		return
@@ -359,7 +475,7 @@ func decodeField(b []byte) (f Field, err error) {
 	ff := field{}
 	ff.name = ef.Name
 	ff.tag = ef.Tag
-	if ff.schema, err = decodeSchema(ef.Schema); err != nil {
+	if ff.schema, err = decodeSchema(ef.Schema, depth); err != nil {
 		return
 	}
 	f = &ff
diff --git a/skyobject/registry/schema.go b/skyobject/registry/schema.go
index f504730..b256a76 100644
--- a/skyobject/registry/schema.go
+++ b/skyobject/registry/schema.go
@@ -361,13 +361,11 @@ func (a *arraySchema) String() string {
 type structSchema struct {
 	schema
 	fields []Field
+	refs   bool // has references, it's set by the Registry
 }
 
 func (s *structSchema) HasReferences() (has bool) {
-	for _, fl := range s.fields {
-		has = has || fl.Schema().HasReferences()
-	}
-	return
+	return s.refs
 }
 
 func (s *structSchema) Reference() SchemaRef {
-- 
2.43.0


From dd772bcab59d6b5012c4e0069e31f1c52f94b260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:16 +0000
Subject: [PATCH 16/83] fix: size of huge array of empty elements is calculated
 endlessly

---
 skyobject/registry/schema_helpers.go | 4 ++--
 skyobject/registry/split.go          | 4 ++++
 skyobject/registry/walk.go           | 4 ++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/skyobject/registry/schema_helpers.go b/skyobject/registry/schema_helpers.go
index a4e6538..ec371da 100644
--- a/skyobject/registry/schema_helpers.go
+++ b/skyobject/registry/schema_helpers.go
@@ -38,8 +38,8 @@ func schemaArraySliceSize(el Schema, l, shift int, p []byte) (n int,
 				err = ErrInvalidSchemaOrData
 				return
 			}
-			if m, err = el.Size(p[n:]); err != nil {
-				return
+			if m, err = el.Size(p[n:]); err != nil || m == 0 {
+				return // all elements are empty if the first is empty
 			}
 			n += m
 		}
diff --git a/skyobject/registry/split.go b/skyobject/registry/split.go
index d3c3a28..8830de4 100644
--- a/skyobject/registry/split.go
+++ b/skyobject/registry/split.go
@@ -268,6 +268,10 @@ func splitArraySlice(
 			return
 		}
 
+		if m == 0 {
+			return // all elements are empty if the first is empty
+		}
+
 		// split
 		splitSchemaDataAsync(s, el, val[shift:shift+m])
 
diff --git a/skyobject/registry/walk.go b/skyobject/registry/walk.go
index 852a8dc..72f1123 100644
--- a/skyobject/registry/walk.go
+++ b/skyobject/registry/walk.go
@@ -200,8 +200,8 @@ func walkArraySlice(
 			return
 		}
 
-		if m, err = el.Size(val[shift:]); err != nil {
-			return
+		if m, err = el.Size(val[shift:]); err != nil || m == 0 {
+			return // all elements are empty if the first is empty
 		}
 
 		// if we are here, then the el contains references
-- 
2.43.0


From fe4cd9c185726c3fff903462ebfa1b48e0ab96d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 17/83] fix: hashes of full nodes of Refs are not updated after
 append

---
 skyobject/registry/refs_node.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/skyobject/registry/refs_node.go b/skyobject/registry/refs_node.go
index 7e087e2..897f8b0 100644
--- a/skyobject/registry/refs_node.go
+++ b/skyobject/registry/refs_node.go
@@ -1109,16 +1109,12 @@ func (r *Refs) appendNodeGoUp(
 	// is > 0 and the ap.rn.upper contains branches
 	if len(ap.rn.branches) == int(r.degree) {
 
-		// not increased (idle pass)
-		if ap.increase == 0 {
-			return r.appendNodeGoUp(pack, ap, hash) // go up
-		}
-
 		ap.increase = 0 // reset
 
 		// TODO (kostyarin): LazyUpdating
 
-		// else -> increased
+		// the length has been increased, may be, by previous step;
+		// thus the node should be updated, even if the increase is 0
 		if err = ap.rn.updateHashIfNeed(pack, ap.depth, true); err != nil {
 			return // saving error
 		}
-- 
2.43.0


From 89043b9fbb4f2a11c7ac247c0827d9bd9c4cfad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:35 +0000
Subject: [PATCH 18/83] fix: changes of Refs are lost if LazyUpdating flag is
 used

---
 skyobject/registry/refs.go      | 19 +++++++++++++------
 skyobject/registry/refs_node.go | 28 +++++++++++++++++++---------
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index 08e2cbe..e0d44b1 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -172,7 +172,7 @@ func (r *Refs) SetDegree(pack Pack, degree Degree) (err error) {
 		return
 	}
 
-	if r.Hash == (cipher.SHA256{}) {
+	if r.length == 0 {
 		r.degree = degree
 		return // it's enough
 	}
@@ -723,9 +723,11 @@ func (r *Refs) deleteByHashUsingHashTable(
 
 	// if the Refs contains one element with the hash,
 	// then we update subtree in place, otherwise
-	// we call walkUpdating in the end
+	// we call walkUpdating in the end (or inside the Rebuild if
+	// the LazyUpdating flag is set)
 
-	var one = len(els) == 1 // only one element
+	// only one element
+	var one = len(els) == 1 && r.flags&LazyUpdating == 0
 
 	delete(r.refsIndex, hash) // remove all from the index
 
@@ -1342,21 +1344,26 @@ func (r *Refs) appnedFunc(
 
 		// ap.increase > 0, ap.rn contains leafs
 
+		var need = r.flags&LazyUpdating == 0
+
 		for ; ap.rn != nil; ap.rn, ap.depth = ap.rn.upper, ap.depth+1 {
 
 			if ap.depth > 0 {
 				ap.rn.length += ap.increase
 			}
 
-			if err = ap.rn.updateHashIfNeed(pack, ap.depth, true); err != nil {
+			if err = ap.rn.updateHashIfNeed(pack, ap.depth, need); err != nil {
 				return // saving error
 			}
 
 		}
 
-		// TODO (kostyarin): LazyUpdating
+		if need == false {
+			// there can be other changes not saved yet
+			return r.walkUpdating(pack)
+		}
 
-		err = r.updateHashIfNeed(pack, true)
+		err = r.updateHash(pack)
 		return
 
 	}
diff --git a/skyobject/registry/refs_node.go b/skyobject/registry/refs_node.go
index 897f8b0..9bcac30 100644
--- a/skyobject/registry/refs_node.go
+++ b/skyobject/registry/refs_node.go
@@ -597,6 +597,17 @@ func (r *Refs) deleteElement(
 		up.length--
 		up.mods |= contentMod
 
+		if up.length == 0 && up.upper != nil {
+			// delete the node, because it's empty
+			for j, br := range up.upper.branches {
+				if br == up {
+					up.upper.deleteNodeByIndex(j)
+					break
+				}
+			}
+			continue
+		}
+
 		if update == true {
 			err = up.updateHashIfNeed(pack, depth, update)
 			if err != nil {
@@ -1111,11 +1122,12 @@ func (r *Refs) appendNodeGoUp(
 
 		ap.increase = 0 // reset
 
-		// TODO (kostyarin): LazyUpdating
-
 		// the length has been increased, may be, by previous step;
 		// thus the node should be updated, even if the increase is 0
-		if err = ap.rn.updateHashIfNeed(pack, ap.depth, true); err != nil {
+		err = ap.rn.updateHashIfNeed(pack, ap.depth,
+			r.flags&LazyUpdating == 0)
+
+		if err != nil {
 			return // saving error
 		}
 
@@ -1159,8 +1171,10 @@ func (r *Refs) appendNode(
 
 		if len(ap.rn.leafs) == int(r.degree) { // full
 
-			// TODO (kostyarin): LazyUpdating
-			if err = ap.rn.updateHashIfNeed(pack, ap.depth, true); err != nil {
+			err = ap.rn.updateHashIfNeed(pack, ap.depth,
+				r.flags&LazyUpdating == 0)
+
+			if err != nil {
 				return // saving error
 			}
 
@@ -1180,8 +1194,6 @@ func (r *Refs) appendNode(
 		ap.rn.leafs = append(ap.rn.leafs, el)
 		ap.rn.length++ // add
 
-		// TODO (kostyarin): LazyUpdating
-
 		ap.increase++ // increase the length
 
 		return nil // the same point
@@ -1198,8 +1210,6 @@ func (r *Refs) appendNode(
 
 			// just append branch if the rn.branches is empty
 
-			// TODO (kostyarin): LazyUpdating
-
 			var br = &refsNode{
 				upper: ap.rn,
 				mods:  loadedMod,
-- 
2.43.0


From d7795d524131eba88827ad3b94031c380c68fae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:53 +0000
Subject: [PATCH 19/83] fix: iterators of Refs are broken by Append, SetDegree
 and Clear

---
 skyobject/registry/refs.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index e0d44b1..184b0d2 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -188,6 +188,7 @@ func (r *Refs) SetDegree(pack Pack, degree Degree) (err error) {
 
 	*r = *nr
 
+	r.rewindIterators() // for iterators
 	return
 }
 
@@ -832,6 +833,8 @@ func (r *Refs) startIteration() {
 // stopIteration method should be called using
 // defer statement
 func (r *Refs) stopIteration() {
+	// pass changes (that are not handled yet) to next iterator
+	r.isFindingIteratorsIndexFromRootRequired()
 	r.iterators = r.iterators[:len(r.iterators)-1]
 }
 
@@ -908,7 +911,13 @@ func (r *Refs) ascendFrom(
 		// so, we need to find next element from root of the Refs
 		if rewind == true {
 			i += pass // shift the i to don't repeat elements
-			continue  // find next index from root of the Refs
+
+			// the Refs can be cleared
+			if err = r.initialize(pack); err != nil {
+				return
+			}
+
+			continue // find next index from root of the Refs
 		}
 
 		// the loop is necessary for rewinding only
@@ -1004,6 +1013,11 @@ func (r *Refs) descendFrom(
 		if rewind == true {
 			i -= pass // shift the i to don't repeat elements
 
+			// the Refs can be cleared
+			if err = r.initialize(pack); err != nil {
+				return
+			}
+
 			// if the length has been changed
 			if i >= r.length {
 				return ErrIndexOutOfRange // out
@@ -1462,9 +1476,11 @@ func (r *Refs) Append(
 			return // error
 		}
 
-		*r = *nr // replace this Refs with new extended
+		nr.iterators = r.iterators // copy iterators
+		*r = *nr                   // replace this Refs with new extended
 
-		return // done
+		r.rewindIterators() // for iterators
+		return              // done
 
 	}
 
@@ -1480,7 +1496,8 @@ func (r *Refs) Append(
 		return
 	}
 
-	return // done
+	r.rewindIterators() // for iterators
+	return              // done
 
 }
 
@@ -1601,7 +1618,8 @@ func (r *Refs) AppendHashes(
 		nr.iterators = r.iterators // copy iterators
 		*r = *nr                   // replace this Refs with new extended
 
-		return // done
+		r.rewindIterators() // for iterators
+		return              // done
 
 	}
 
@@ -1621,13 +1639,15 @@ func (r *Refs) AppendHashes(
 		return // error
 	}
 
-	return // done
+	r.rewindIterators() // for iterators
+	return              // done
 
 }
 
 // Clear the Refs making it blank
 func (r *Refs) Clear() {
-	*r = Refs{}
+	*r = Refs{iterators: r.iterators} // keep iterators
+	r.rewindIterators()               // for iterators
 }
 
 // Rebuild the Refs if need. The Refs can contain
-- 
2.43.0


From 2944dcaf7b15ca8d3e307fe5c0d2d1e5015d8d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:08 +0000
Subject: [PATCH 20/83] fix: size of nested empty arrays is calculated
 exponentially

---
 skyobject/registry/registry.go | 11 ++++++++++-
 skyobject/registry/schema.go   |  8 ++++++++
 skyobject/registry/split.go    |  4 ++++
 skyobject/registry/walk.go     |  4 ++--
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/skyobject/registry/registry.go b/skyobject/registry/registry.go
index 33fc5e7..f8698e9 100644
--- a/skyobject/registry/registry.go
+++ b/skyobject/registry/registry.go
@@ -227,6 +227,7 @@ func (r *Registry) fillSchema(
 type schemaInfo struct {
 	size    int  // size of encoded Schema is not less
 	refs    bool // the Schema contains references
+	blank   bool // encoded value is always empty
 	checked bool // false for a Schema the check of which is not finished
 }
 
@@ -273,13 +274,21 @@ func (r *Registry) checkSchema(
 			info.size += el.size // a registered one is encoded as its name
 		}
 
+		if as, ok := x.(*arraySchema); ok == true {
+			info.blank = as.length == 0 || el.blank
+			as.blank = info.blank
+		}
+
 	case *structSchema:
 
+		info.blank = true
+
 		for _, f := range x.fields {
 			if el, err = r.checkSchema(f.Schema(), limit, infos); err != nil {
 				return
 			}
 			info.refs = info.refs || el.refs
+			info.blank = info.blank && el.blank
 			info.size += el.size + len(f.RawName()) + len(f.RawTag())
 
 			if info.size > limit {
@@ -288,7 +297,7 @@ func (r *Registry) checkSchema(
 			}
 		}
 
-		x.refs = info.refs
+		x.refs, x.blank = info.refs, info.blank
 
 	}
 
diff --git a/skyobject/registry/schema.go b/skyobject/registry/schema.go
index b256a76..eef0de4 100644
--- a/skyobject/registry/schema.go
+++ b/skyobject/registry/schema.go
@@ -314,6 +314,7 @@ func (s *sliceSchema) String() string {
 type arraySchema struct {
 	sliceSchema
 	length int
+	blank  bool // is always empty, it's set by the Registry
 }
 
 func (a *arraySchema) Len() int {
@@ -328,6 +329,9 @@ func (a *arraySchema) Reference() SchemaRef {
 }
 
 func (a *arraySchema) Size(p []byte) (n int, err error) {
+	if a.blank == true {
+		return
+	}
 	n, err = schemaArraySliceSize(a.Elem(), a.Len(), 0, p)
 	if err == nil && n > len(p) {
 		err = ErrInvalidSchemaOrData
@@ -362,6 +366,7 @@ type structSchema struct {
 	schema
 	fields []Field
 	refs   bool // has references, it's set by the Registry
+	blank  bool // is always empty, it's set by the Registry
 }
 
 func (s *structSchema) HasReferences() (has bool) {
@@ -380,6 +385,9 @@ func (s *structSchema) Fields() []Field {
 }
 
 func (s *structSchema) Size(p []byte) (n int, err error) {
+	if s.blank == true {
+		return
+	}
 	var m int
 	for _, sf := range s.Fields() {
 		if n > len(p) {
diff --git a/skyobject/registry/split.go b/skyobject/registry/split.go
index 8830de4..dd27bcb 100644
--- a/skyobject/registry/split.go
+++ b/skyobject/registry/split.go
@@ -312,6 +312,10 @@ func splitStruct(
 			return
 		}
 
+		if z == 0 {
+			continue // the field is empty
+		}
+
 		splitSchemaDataAsync(s, fl.Schema(), val[shift:shift+z])
 
 		shift += z
diff --git a/skyobject/registry/walk.go b/skyobject/registry/walk.go
index 72f1123..a75b08c 100644
--- a/skyobject/registry/walk.go
+++ b/skyobject/registry/walk.go
@@ -249,8 +249,8 @@ func walkStruct(
 			return
 		}
 
-		// skip all fields that doesn't contains references
-		if fl.Schema().HasReferences() == false {
+		// skip all fields that doesn't contains references, and empty ones
+		if s == 0 || fl.Schema().HasReferences() == false {
 			shift += s
 			continue
 		}
-- 
2.43.0


From 818dfcc873130b89b716a956ee522a125a02841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:14 +0000
Subject: [PATCH 21/83] fix: printing of a Root panics if an object has array
 or slice of strings, structs or references

---
 skyobject/registry/root_tree.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/skyobject/registry/root_tree.go b/skyobject/registry/root_tree.go
index cc0df01..863c6f6 100644
--- a/skyobject/registry/root_tree.go
+++ b/skyobject/registry/root_tree.go
@@ -440,7 +440,7 @@ func rootTreeSlice(pack Pack, sch Schema, val []byte) (it *gotree.GTStructure) {
 
 	var m, s, k int
 
-	if s = fixedSize(el.Kind()); s < 0 {
+	if s = fixedSize(el.Kind()); s > 0 {
 
 		for k = 0; k < ln; k++ {
 
@@ -475,9 +475,16 @@ func rootTreeSlice(pack Pack, sch Schema, val []byte) (it *gotree.GTStructure) {
 			}
 
 			if m, err = el.Size(val[shift:]); err != nil {
+				it.Items = append(it.Items, &gotree.GTStructure{
+					Name: "(err) " + err.Error(),
+				})
 				return
 			}
 
+			if m == 0 {
+				return // all elements are empty if the first is empty
+			}
+
 			it.Items = append(
 				it.Items,
 				rootTreeData(pack, el, val[shift:shift+m]),
@@ -528,7 +535,14 @@ func rootTreeStruct(
 			return
 		}
 
-		fit := rootTreeData(pack, f.Schema(), val[shift:shift+s])
+		var fit *gotree.GTStructure
+
+		if s > 0 {
+			fit = rootTreeData(pack, f.Schema(), val[shift:shift+s])
+		} else {
+			fit = &gotree.GTStructure{Name: f.Schema().String()} // empty
+		}
+
 		fit.Name = f.Name() + ": " + fit.Name // field name
 		it.Items = append(it.Items, fit)
 		shift += s
@@ -629,8 +643,13 @@ func rootTreeRefs(pack Pack, sch Schema, val []byte) (it *gotree.GTStructure) {
 			return true, nil
 		}
 
+		if hash == (cipher.SHA256{}) {
+			it.Items = append(it.Items, &gotree.GTStructure{Name: "nil"})
+			return
+		}
+
 		it.Items = append(it.Items, rootTreeHash(pack, el, hash))
-		return true, nil
+		return // the element is already printed with all its references
 	})
 
 	if err != nil {
-- 
2.43.0


From ec4973787c44070dc79d11d4701c6843d3466f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:04 +0000
Subject: [PATCH 22/83] fix: registry accepts schemas that are not registered
 types and crashes

---
 skyobject/registry/registry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skyobject/registry/registry.go b/skyobject/registry/registry.go
index f8698e9..9937248 100644
--- a/skyobject/registry/registry.go
+++ b/skyobject/registry/registry.go
@@ -55,6 +55,10 @@ func DecodeRegistry(b []byte) (r *Registry, err error) {
 		if s, err = decodeSchema(re.Schema, 0); err != nil {
 			return
 		}
+		// only named structures
+		if s.IsRegistered() == false || s.Name() != re.Name {
+			return nil, ErrInvalidEncodedSchema
+		}
 		reg.reg[re.Name] = s
 	}
 
-- 
2.43.0


From f83f1e0bd975869c1884bc742778c8e353440edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:38 +0000
Subject: [PATCH 23/83] fix: Refs with wrong length or depth received from
 network crashes a node

---
 skyobject/registry/refs.go      | 26 ++++++++++++---
 skyobject/registry/refs_node.go | 56 +++++++++++++++++++++++++++------
 2 files changed, 68 insertions(+), 14 deletions(-)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index 184b0d2..3d630ec 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -76,6 +76,11 @@ func (r *Refs) Short() string {
 	return r.Hash.Hex()[:7]
 }
 
+// the least degree is 2 and length of the
+// Refs is uint32, thus depth of a Refs can't
+// be greater
+const maxRefsDepth = 31
+
 func (r *Refs) initialize(pack Pack) (err error) {
 
 	if r.refsNode != nil && r.mods != 0 {
@@ -102,6 +107,15 @@ func (r *Refs) initialize(pack Pack) (err error) {
 		return // blank Refs, don't need to load
 	}
 
+	// a Refs that can't be loaded is not initialized
+
+	defer func() {
+		if err != nil {
+			r.refsNode, r.refsIndex = nil, nil
+			r.depth, r.degree, r.flags = 0, 0, 0
+		}
+	}()
+
 	var er encodedRefs
 	if err = get(pack, r.Hash, &er); err != nil {
 		return // get or decoding error
@@ -112,10 +126,14 @@ func (r *Refs) initialize(pack Pack) (err error) {
 
 	r.length = int(er.Length)
 
-	if r.length == 0 || r.degree.Validate() != nil {
+	if r.length == 0 || r.degree.Validate() != nil || r.depth > maxRefsDepth {
 		return ErrInvalidEncodedRefs // invalid state
 	}
 
+	if r.validateElements(r.length, er.Elements, r.depth) != nil {
+		return ErrInvalidEncodedRefs
+	}
+
 	return r.loadSubtree(pack, r.refsNode, er.Elements, r.depth)
 }
 
@@ -1172,8 +1190,8 @@ func (r *Refs) appnedCreatingSliceFunc(j int) (iter IterateFunc) {
 			return ErrStopIteration // we are done
 		}
 
-		// the call will panic if the slice (the r) is invalid
-		cn, depth = r.appendCreatingSliceNode(cn, depth, hash)
+		// the call fails if the slice (the r) can't fit all elements
+		cn, depth, err = r.appendCreatingSliceNode(cn, depth, hash)
 
 		return // continue
 	}
@@ -1344,7 +1362,7 @@ func (r *Refs) appnedFunc(
 
 	iter = func(_ int, hash cipher.SHA256) (err error) {
 
-		// the call will panic if the r (the destination) is invalid
+		// the call fails if the r (the destination) is invalid
 		err = r.appendNode(pack, &ap, hash)
 
 		return // continue
diff --git a/skyobject/registry/refs_node.go b/skyobject/registry/refs_node.go
index 9bcac30..f9c891d 100644
--- a/skyobject/registry/refs_node.go
+++ b/skyobject/registry/refs_node.go
@@ -71,6 +71,27 @@ func (r *Refs) loadLeafs(
 	return
 }
 
+// validateElements of a loaded node, since the node
+// can be received from a remote peer
+func (r *Refs) validateElements(
+	length int, //               : length of the node
+	elements []cipher.SHA256, // : elements of the node
+	depth int, //                : depth of the node (of the elements)
+) (
+	err error, //                : 'invalid refs' error
+) {
+
+	if len(elements) > int(r.degree) {
+		return ErrInvalidRefs // too many elements
+	}
+
+	if depth == 0 && len(elements) != length {
+		return ErrInvalidRefs // the elements are leafs
+	}
+
+	return
+}
+
 // laod branch, setting hash and upper fields and loading
 // deeppre if HashTableIndex or (or and) EntireRefs flags
 // set
@@ -175,6 +196,10 @@ func (r *Refs) loadNode(
 
 	rn.length = int(ern.Length)
 
+	if err = r.validateElements(rn.length, ern.Elements, depth); err != nil {
+		return
+	}
+
 	return r.loadSubtree(pack, rn, ern.Elements, depth) // depth is the same
 }
 
@@ -330,10 +355,10 @@ func (r *Refs) elementByIndex(
 			continue       // and skip the branch
 		}
 
-		break // the branch that contains the needle has been found
+		return r.elementByIndex(pack, br, i, depth-1) // found
 	}
 
-	return r.elementByIndex(pack, br, i, depth-1)
+	return nil, ErrInvalidRefs // can't find the element
 }
 
 //
@@ -517,7 +542,11 @@ func (r *Refs) deleteElementByIndex(
 
 	// else, take a look at branches
 
-	var br *refsNode
+	var (
+		br    *refsNode
+		found bool
+	)
+
 	for j, br = range rn.branches {
 
 		if err = r.loadNodeIfNeed(pack, br, depth-1); err != nil {
@@ -529,9 +558,14 @@ func (r *Refs) deleteElementByIndex(
 			continue       // and skip the branch
 		}
 
+		found = true
 		break // the branch that contains the needle has been found
 	}
 
+	if found == false {
+		return ErrInvalidRefs // can't find the element
+	}
+
 	// keep j for now
 
 	if err = r.deleteElementByIndex(pack, br, i, depth-1); err != nil {
@@ -883,6 +917,7 @@ func (r *Refs) appendCreatingSliceNodeGoUp(
 ) (
 	cn *refsNode, //       : current node (can be another then the rn)
 	cdepth int, //         : current depth (depth of the cn)
+	err error, //          : invalid Refs
 ) {
 
 	for {
@@ -896,9 +931,9 @@ func (r *Refs) appendCreatingSliceNodeGoUp(
 			// since, we have to add a new hash to the slice (to the r),
 			// then the full rn (and the rn is full here) must have
 			// upper node to add another one go or upper; e.g. if
-			// the rn.upper is nil, then this case is invalid and
-			// this case should produce panicing
-			panic("invalid case")
+			// the rn.upper is nil, then length of the origin (that can
+			// be received from a remote peer) is not actual
+			return nil, 0, ErrInvalidRefs
 		}
 
 		rn, depth = rn.upper, depth+1 // go up
@@ -933,6 +968,7 @@ func (r *Refs) appendCreatingSliceNode(
 ) (
 	cn *refsNode, //       : current node (can be another then the rn)
 	cdepth int, //         : current depth (depth of the cn)
+	err error, //          : invalid Refs
 ) {
 
 	if depth == 0 { // leafs
@@ -952,7 +988,7 @@ func (r *Refs) appendCreatingSliceNode(
 
 		rn.leafs = append(rn.leafs, el)
 
-		return rn, depth // the same
+		return rn, depth, nil // the same
 	}
 
 	// else if depth > 0 { branches }
@@ -1102,9 +1138,9 @@ func (r *Refs) appendNodeGoUp(
 		// since, we have to add a new hash to the slice (to the r),
 		// then the full rn (and the rn is full here) must have
 		// upper node to add another one go or upper; e.g. if
-		// the rn.upper is nil, then this case is invalid and
-		// this case should produce panicing
-		panic("invalid case")
+		// the rn.upper is nil, then length of the appended Refs (that
+		// can be received from a remote peer) is not actual
+		return ErrInvalidRefs
 	}
 
 	// bubble the length increasing first
-- 
2.43.0


From a3c14213dc0825b64a15353e0c646950fcadcae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:38 +0000
Subject: [PATCH 24/83] fix: printing of a Root allocates memory by length of
 Refs that can be wrong

---
 skyobject/registry/root_tree.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/skyobject/registry/root_tree.go b/skyobject/registry/root_tree.go
index 863c6f6..b895406 100644
--- a/skyobject/registry/root_tree.go
+++ b/skyobject/registry/root_tree.go
@@ -629,8 +629,6 @@ func rootTreeRefs(pack Pack, sch Schema, val []byte) (it *gotree.GTStructure) {
 	it.Name = fmt.Sprintf("[]*(%s) %s length: %d", el.String(), refs.Short(),
 		ln)
 
-	it.Items = make([]*gotree.GTStructure, 0, ln)
-
 	err = refs.Walk(pack, el, func(
 		hash cipher.SHA256,
 		depth int,
-- 
2.43.0


From 9bfe15356f5c9274e144b65fd25997499f5f1c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:02 +0000
Subject: [PATCH 25/83] fix: Walk uses stale hashes of changed Refs if
 LazyUpdating flag is used

---
 skyobject/registry/refs_walk.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/skyobject/registry/refs_walk.go b/skyobject/registry/refs_walk.go
index 551ba81..24da933 100644
--- a/skyobject/registry/refs_walk.go
+++ b/skyobject/registry/refs_walk.go
@@ -163,6 +163,19 @@ func (r *Refs) walk(
 			return
 		}
 
+	} else if r.mods&contentMod != 0 {
+
+		// the Refs has been changed, but its
+		// hashes are not updated yet
+
+		if err = r.walkUpdating(pack); err != nil {
+			return
+		}
+
+		if r.Hash == (cipher.SHA256{}) {
+			return r.walkBlank(walkFunc) // it's blank now
+		}
+
 	}
 
 	// ok, let's walk
-- 
2.43.0


From 51948aff38351d1d68576eb730606eeb5150bf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:32 +0000
Subject: [PATCH 26/83] fix: DelRoot panics deleting the only Root of a head
 and keeps wrong active head

---
 skyobject/index.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index e7d0cf6..bc1c397 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -34,6 +34,10 @@ func (i *indexHeads) setActive() {
 
 	for nonce, dr := range i.h {
 
+		if dr == nil {
+			continue // blank head
+		}
+
 		if i.activet < dr.Time {
 			i.activet = dr.Time
 			i.activen = nonce
@@ -839,8 +843,8 @@ func (i *Index) delRoot(
 		hs.h[nonce] = ir
 	}
 
-	// cahnge active head if the Root is last for active head
-	if ir.Time == hs.activet {
+	// cahnge active head if the last Root of the head has been deleted
+	if replaced == true {
 		hs.setActive()
 	}
 
-- 
2.43.0


From 4e6d7844a37ac639223fd975bb307c27053e0eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:33 +0000
Subject: [PATCH 27/83] fix: a Root with blank references can't be deleted
 completely

---
 skyobject/index.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skyobject/index.go b/skyobject/index.go
index bc1c397..6d91d6c 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -888,6 +888,10 @@ func (i *Index) delPackWalkFunc(
 		err error, //          : a DB error
 	) {
 
+		if hash == (cipher.SHA256{}) {
+			return // blank reference
+		}
+
 		var (
 			rc  int
 			val []byte
-- 
2.43.0


From d11097820b8ef44c015b8606a7890f80827bf683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:33 +0000
Subject: [PATCH 28/83] fix: Save drops subtree of an object that was stored
 twice

---
 skyobject/unpack.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index 5cc816c..d4403ea 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -47,7 +47,9 @@ func (u *Unpack) Set(key cipher.SHA256, val []byte) (err error) {
 	}
 
 	ui.inc++
-	ui.created = (rc == 1)
+	if rc == 1 {
+		ui.created = true // by this or by a previous Set
+	}
 
 	return
 }
-- 
2.43.0


From d391f6c99bcc6e7b5bfb7f80d6e5de44db90f4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:33 +0000
Subject: [PATCH 29/83] fix: Save doesn't count references of objects used many
 times

---
 skyobject/unpack.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index d4403ea..cc49332 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -182,7 +182,10 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 			// values in CXDS actual
 
 			ui.dec++ // used
-			deepper = ui.created
+
+			// an object holds its subtree once, regardless
+			// of number of references to the object
+			deepper = ui.created && ui.dec == 1
 			return
 
 		})
@@ -229,8 +232,8 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 
 		var inc = ui.dec - ui.inc
 
-		if inc < 0 {
-			// decrement
+		if inc != 0 {
+			// make actual
 			if _, err = c.Inc(key, inc); err != nil {
 				return // leave the CXDS broken if an error occurred
 			}
-- 
2.43.0


From 0ccecec6b1b5b7ad289aef3018534e866114e3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:43 +0000
Subject: [PATCH 30/83] fix: Save doesn't hold subtree of an unused object it
 refers to

---
 skyobject/cache.go  |  4 +++-
 skyobject/unpack.go | 13 ++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 3bf3693..a54ad01 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -956,7 +956,9 @@ func (c *Cache) inc(
 		return
 	}
 
-	err = c.putItem(key, val, int(urc))
+	rc = int(urc) // hard rc
+
+	err = c.putItem(key, val, rc)
 	return
 
 }
diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index cc49332..3743566 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -160,12 +160,19 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 				// exists in the CXDS, and we have to increment
 				// rc of the object
 
-				if _, err = c.Inc(hash, 1); err != nil {
+				var rc int
+				if rc, err = c.Inc(hash, 1); err != nil {
 					return
 				}
-				up.m[hash] = &unpackItem{inc: 1, dec: 1} // for Close
 
-				return // false, nil
+				// if the object was not used by a Root (rc was zero) then
+				// its subtree is released, and we have to hold it again
+				deepper = (rc == 1)
+
+				// for Close
+				up.m[hash] = &unpackItem{inc: 1, dec: 1, created: deepper}
+
+				return
 			}
 
 			// here we reduce the ui.inc; if end-user saves an
-- 
2.43.0


From ec7033cf6007f44764c408b00ecc0f905acc802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 31/83] fix: a filling or wanted item turns cleaning of the
 Cache off, and it exceeds its limits

---
 skyobject/cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index a54ad01..fb1ffb7 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -338,11 +338,11 @@ func (c *Cache) cleanDown(vol int) (err error) {
 	for key, it := range c.is {
 
 		if it.isWanted() == true {
-			return // skip wanted
+			continue // skip wanted
 		}
 
 		if it.isFilling() == true {
-			return // skip filling (where val is nil)
+			continue // skip filling (where val is nil)
 		}
 
 		rank = append(rank, &rankItem{key, it})
-- 
2.43.0


From 7c46827ace2bc87cde2222e635ce9cc602deed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 32/83] fix: the Cache is cleaned down by CacheCleaning instead
 of down to it

---
 skyobject/cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index fb1ffb7..414d09c 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -125,10 +125,10 @@ func (c *Container) initCache() {
 	c.Cache.enable = !(c.conf.CacheMaxAmount == 0 || c.conf.CacheMaxVolume == 0)
 
 	c.Cache.amountc = int(
-		float64(c.conf.CacheMaxAmount) * (1.0 - c.conf.CacheCleaning),
+		float64(c.conf.CacheMaxAmount) * c.conf.CacheCleaning,
 	)
 	c.Cache.volumec = int(
-		float64(c.conf.CacheMaxVolume) * (1.0 - c.conf.CacheCleaning),
+		float64(c.conf.CacheMaxVolume) * c.conf.CacheCleaning,
 	)
 
 	c.Cache.amount = 0 // cache amount
-- 
2.43.0


From fefbdbc074a294590b4aa1b584fedbcbe68e53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 33/83] fix: closing with a wanted item fails and other items
 are not synced with DB

---
 skyobject/cache.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 414d09c..42eaea2 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -262,12 +262,11 @@ func (c *Cache) Close() (err error) {
 	// sync items
 	for key, it := range c.is {
 
-		// make wanted items filling
+		// a wanted item doesn't exist in DB, there is
+		// nothing to sync
 		if it.isWanted() == true {
-			for _, winc := range it.fwant {
-				it.fc += winc
-			}
 			it.fwant = nil
+			continue
 		}
 
 		it.cc -= it.fc // remove all fincs
-- 
2.43.0


From 16f835a864a1f1283bb7c783805412f64f0ff8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 34/83] fix: Want of a cached object doesn't increment its
 references counter

---
 skyobject/cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 42eaea2..f3a12e7 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -1043,6 +1043,7 @@ func (c *Cache) Want(
 		// regular item in the cache
 
 		it.fc += inc
+		it.cc += inc
 		sendWanted(gc, Object{key, it.val, it.cc - it.fc, nil})
 
 		if inc == 0 {
-- 
2.43.0


From 99ede248369783c3ed3dd038a21c7aabc50cb744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 35/83] fix: the Cache keeps items of rejected fillers forever

---
 skyobject/cache.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index f3a12e7..6c43da3 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -1222,6 +1222,15 @@ func (c *Cache) Finc(
 	// and if it.fc turns to be zero, then the
 	// incItem removes it
 
-	_, err = c.incItem(key, inc, it) // in db
+	if _, err = c.incItem(key, inc, it); err != nil { // in db
+		return
+	}
+
+	// don't keep the item if it's not filling anymore and it has no value
+
+	if it.fc == 0 && it.isWanted() == false && it.isFilling() == true {
+		delete(c.is, key)
+	}
+
 	return
 }
-- 
2.43.0


From d93f2a37ca349fcd26c8e967a7bb3402a3673bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 36/83] fix: Registries are cached without a limit if the
 caching is turned off

---
 skyobject/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 6c43da3..a9d1ebc 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -245,7 +245,7 @@ func (c *Cache) Registry(
 		return
 	}
 
-	if c.c.conf.CacheRegistries >= 0 {
+	if c.c.conf.CacheRegistries > 0 {
 		c.addRegistryToCache(r)
 	}
 
-- 
2.43.0


From a4ae69146f4df5581eacb5cee58e5b72f4aabcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 37/83] fix: NewConfig doesn't set CacheRegistries and
 MaxFillingParallel

---
 skyobject/config.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skyobject/config.go b/skyobject/config.go
index 80348b4..28a8fb9 100644
--- a/skyobject/config.go
+++ b/skyobject/config.go
@@ -216,10 +216,12 @@ func NewConfig() (conf *Config) {
 	conf.CacheMaxAmount = CacheMaxAmount
 	conf.CacheMaxVolume = CacheMaxVolume
 	conf.CachePolicy = LRU
+	conf.CacheRegistries = CacheRegistries
 	conf.CacheCleaning = CacheCleaning
 	conf.CacheMaxItemSize = CacheMaxItemSize
 
 	conf.MaxObjectSize = MaxObjectSize
+	conf.MaxFillingParallel = MaxFillingParallel
 
 	// data dir
 	conf.DataDir = DataDir()
-- 
2.43.0


From 72b00a2692aeaf617900e5d1fa5d241e460c428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:06 +0000
Subject: [PATCH 38/83] fix: AddHead drops all heads of the feed from the Index

---
 skyobject/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index 6d91d6c..c482d55 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -1043,7 +1043,7 @@ func (i *Index) AddHead(pk cipher.PubKey, nonce uint64) (err error) {
 
 	// add to the Index
 
-	i.feeds[pk] = newIndexHeads()
+	hs.h[nonce] = nil // blank head
 	return
 
 }
-- 
2.43.0


From 3cde90553f9f81900082b4b7763bc603513d64c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:06 +0000
Subject: [PATCH 39/83] fix: a deleted head remains active

---
 skyobject/index.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skyobject/index.go b/skyobject/index.go
index c482d55..8206670 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -713,6 +713,11 @@ func (i *Index) delHead(
 
 	delete(hs.h, nonce)
 
+	// change active head if it has been deleted
+	if hs.activen == nonce {
+		hs.setActive()
+	}
+
 	return
 
 }
-- 
2.43.0


From dd37110416c7ced1d95159424024ac7f76e55f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:06 +0000
Subject: [PATCH 40/83] fix: adding of an old Root replaces the last Root of a
 head, and a replaced Root keeps its head active

---
 skyobject/index.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index 8206670..3a6005f 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -396,7 +396,9 @@ func (i *Index) addRoot(r *registry.Root) (alreadyHave bool, err error) {
 		return
 	}
 
-	if ir != nil && r.Seq < ir.Seq {
+	var hs = i.feeds[r.Pub]
+
+	if last := hs.h[r.Nonce]; last != nil && r.Seq < last.Seq {
 		// don't add to the Index the fucking, old,
 		// outdated, never need, nobody need Root
 		return
@@ -404,16 +406,10 @@ func (i *Index) addRoot(r *registry.Root) (alreadyHave bool, err error) {
 
 	// add to the Index
 
-	var hs = i.feeds[r.Pub]
-
 	// replace the last
 
 	hs.h[r.Nonce] = dr
-
-	if hs.activet < r.Time {
-		hs.activet = r.Time
-		hs.activen = r.Nonce
-	}
+	hs.setActive()
 
 	// add to stat
 	i.stat.addRoot()
@@ -431,11 +427,7 @@ func (i *Index) addSavedRoot(r *registry.Root, dr *data.Root) {
 	// replace the last
 
 	hs.h[r.Nonce] = dr
-
-	if hs.activet < r.Time {
-		hs.activet = r.Time
-		hs.activen = r.Nonce
-	}
+	hs.setActive()
 
 	// add to stat
 	i.stat.addRoot()
-- 
2.43.0


From c115f30b9f3a521c1d272b3a3d43ab515135e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:06 +0000
Subject: [PATCH 41/83] fix: LastRoot panics if the Root is not found or can't
 be decoded

---
 skyobject/container.go | 5 ++++-
 skyobject/index.go     | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/skyobject/container.go b/skyobject/container.go
index 6e3a5bd..f9c1166 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -318,7 +318,10 @@ func (c *Container) rootByHash(
 		return
 	}
 
-	r, err = registry.DecodeRoot(val)
+	if r, err = registry.DecodeRoot(val); err != nil {
+		return
+	}
+
 	r.Hash = hash
 	return
 }
diff --git a/skyobject/index.go b/skyobject/index.go
index 3a6005f..052b98b 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -554,7 +554,9 @@ func (i *Index) LastRoot(
 		return
 	}
 
-	r, err = i.c.rootByHash(lr.Hash)
+	if r, err = i.c.rootByHash(lr.Hash); err != nil {
+		return
+	}
 
 	r.IsFull = true
 	r.Sig = lr.Sig
-- 
2.43.0


From 06c76db0296167f08f712c6551068ab1567855ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:06 +0000
Subject: [PATCH 42/83] fix: Stat of a Container with a blank head panics

---
 skyobject/stat.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skyobject/stat.go b/skyobject/stat.go
index 00e95a6..181fcc0 100644
--- a/skyobject/stat.go
+++ b/skyobject/stat.go
@@ -151,6 +151,7 @@ func (i *Index) feedsStat() (s map[cipher.PubKey]FeedStat) {
 
 				if last == nil {
 					sf.Heads[nonce] = sh // blank head
+					continue
 				}
 
 				if roots, err = heads.Roots(nonce); err != nil {
-- 
2.43.0


From 4907cdee5bf6599a19cf57797f1a61fab5b08f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:09 +0000
Subject: [PATCH 43/83] fix: a Root of another feed is accepted if its signer
 owns the feed of the message

---
 skyobject/index.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skyobject/index.go b/skyobject/index.go
index 052b98b..ce42984 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -264,6 +264,11 @@ func (i *Index) receivedRoot(
 		return
 	}
 
+	if r.Pub != pk {
+		return nil, errors.New("received Root belongs to another feed: " +
+			r.Short())
+	}
+
 	r.Hash = hash // set the hash
 	r.Sig = sig   // set the signature
 
-- 
2.43.0


From 38a43b2404afa8187ff5bd5eed6f63ab84f28dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 44/83] fix: a Root with excess bytes is accepted with hash
 that is not hash of the stored Root

---
 skyobject/index.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skyobject/index.go b/skyobject/index.go
index ce42984..eb567b0 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -1,6 +1,7 @@
 package skyobject
 
 import (
+	"bytes"
 	"errors"
 	"sync"
 	"time"
@@ -269,6 +270,13 @@ func (i *Index) receivedRoot(
 			r.Short())
 	}
 
+	// the Root is stored encoded, thus its hash is
+	// the given one only if the encoding is exact
+	if bytes.Equal(r.Encode(), val) == false {
+		return nil, errors.New("received Root is encoded incorrectly: " +
+			r.Short())
+	}
+
 	r.Hash = hash // set the hash
 	r.Sig = sig   // set the signature
 
-- 
2.43.0


From bc9774c75f96bcc449aba6bb697d54637e4a84f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:16 +0000
Subject: [PATCH 45/83] fix: Filler without limit of parallelism blocks
 forever, and the limit doesn't limit

---
 skyobject/fill.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skyobject/fill.go b/skyobject/fill.go
index 82f7622..9ec7a28 100644
--- a/skyobject/fill.go
+++ b/skyobject/fill.go
@@ -253,6 +253,12 @@ func (f *Filler) acquire() (parall bool) {
 
 }
 
+func (f *Filler) release() {
+	if f.limit != nil {
+		<-f.limit
+	}
+}
+
 // Go performs some task dependig on parallelism.
 func (f *Filler) Go(fn func()) {
 
@@ -263,7 +269,7 @@ func (f *Filler) Go(fn func()) {
 		f.await.Add(1)
 		go func() {
 			defer f.await.Done()
-			<-f.limit // release
+			defer f.release()
 			fn()
 		}()
 
-- 
2.43.0


From 83e221b6a96de4511032f7a7b2b74930d12cc8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:55 +0000
Subject: [PATCH 46/83] fix: Filler counts references of objects wrong, panics,
 ignores failures and can mark a terminated Root as full

An object requested by a filler and used by the Root twice panics the
process (Finc to negative), a rejected filling leaves references counters
incremented, two fillers of the same objects leave excess references,
a subtree of an object visited many times can be missing in a full Root,
Fail doesn't terminate a filler that works without parallel goroutines,
and errors of tasks (termination too) can be lost, thus the Root is marked
as full.
---
 skyobject/container.go |   3 +
 skyobject/fill.go      | 363 +++++++++++++++++++++++++++++------------
 2 files changed, 258 insertions(+), 108 deletions(-)

diff --git a/skyobject/container.go b/skyobject/container.go
index f9c1166..97c388d 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -3,6 +3,7 @@ package skyobject
 import (
 	"log"
 	"path/filepath"
+	"sync"
 
 	"github.com/skycoin/skycoin/src/cipher"
 
@@ -25,6 +26,8 @@ type Container struct {
 
 	conf *Config // configurations
 
+	fillmx sync.Mutex // saving of filled Root objects
+
 	// human readable (used by node for debugging)
 	cxPath, idxPath string
 }
diff --git a/skyobject/fill.go b/skyobject/fill.go
index 9ec7a28..4fde41c 100644
--- a/skyobject/fill.go
+++ b/skyobject/fill.go
@@ -5,12 +5,20 @@ import (
 
 	"github.com/skycoin/skycoin/src/cipher"
 
-	"github.com/skycoin/cxo/data"
 	"github.com/skycoin/cxo/skyobject/registry"
 )
 
 // A Filler implements registry.Splitter interface
 // and used for filling.
+//
+// The filling has two stages. The first stage collects objects
+// of the Root. Every object the stage visits is wanted once, and
+// the Filler keeps the object (see Want and Finc methods of the
+// Cache) until the Run returns. The second stage walks through
+// the collected Root and increments references counters the same
+// way the Save does, and the DelRoot decrements them. Thus, if
+// the filling fails, then all incs of the first stage are
+// rejected and all references counters are the same as before
 type Filler struct {
 	c *Container
 	r *registry.Root
@@ -20,14 +28,16 @@ type Filler struct {
 	rq chan<- cipher.SHA256
 
 	mx   sync.Mutex
-	incs map[cipher.SHA256]int
+	incs map[cipher.SHA256]int      // visited objects -> incs
 	pre  map[cipher.SHA256]struct{} // prerequested by RC
 
 	limit chan struct{} // max
 
 	errq chan error
 
-	await sync.WaitGroup
+	run   bool           // the Run has been called
+	await sync.WaitGroup // the Run
+	tasks sync.WaitGroup // goroutines of the Run
 
 	closeq chan struct{}
 	closeo sync.Once
@@ -42,66 +52,85 @@ func (f *Filler) Registry() (reg *registry.Registry) {
 	return f.reg
 }
 
-func (f *Filler) get(
+// visit returns true if the Filler visits
+// object with given key first time
+func (f *Filler) visit(key cipher.SHA256) (first bool) {
+	f.mx.Lock()
+	defer f.mx.Unlock()
+
+	if _, ok := f.incs[key]; ok == true {
+		return
+	}
+
+	f.incs[key] = 0 // not received yet
+	return true
+}
+
+// want given object; the rc is hard rc, e.g. it
+// doesn't include incs of fillers
+func (f *Filler) want(
 	key cipher.SHA256,
-	inc int,
 ) (
 	val []byte,
 	rc int,
 	err error,
 ) {
 
-	// try to get from DB first
-	val, rc, err = f.c.Get(key, inc) // incrementing the rc to hold the object
+	var (
+		gc  = make(chan Object, 1) // wait for the object
+		obj Object
+		ok  bool
+	)
 
-	if err == nil {
-		if inc > 0 {
-			rc = f.inc(key, rc) // ++
+	err = f.c.Want(key, gc, 1)
+
+	select {
+	case obj = <-gc: // already have
+		ok = true
+	default:
+		if err == nil {
+			obj, ok = f.request(key, gc)
 		}
-		return
+		f.c.Unwant(key, gc) // to be memory safe
 	}
 
-	if err != data.ErrNotFound {
-		fatal("DB failure:", err) // fatality
+	// the object can be received after the
+	// termination but before the Unwant
+	if ok == false {
+		select {
+		case obj = <-gc:
+			ok = true
+		default:
+		}
 	}
 
-	err = nil // clear if it's data.ErrNotFound
-
-	// not found
-	var gc = make(chan Object, 1) // wait for the object
-
-	f.c.Want(key, gc, inc)
-	defer f.c.Unwant(key, gc) // to be memory safe
-
-	// requset the object using the rq channel
-	if f.requset(key) == false {
-		return
+	switch {
+	case ok == false && err == nil:
+		return nil, 0, ErrTerminated
+	case ok == false:
+		return // DB failure
+	case obj.Err != nil:
+		return nil, 0, obj.Err
 	}
 
-	select {
-	case obj := <-gc:
-		if err = obj.Err; err != nil {
-			return
-		}
-		val = obj.Val
-		if inc > 0 {
-			rc = f.inc(key, obj.RC)
-		} else {
-			rc = obj.RC
-		}
-	case <-f.closeq:
-		err = ErrTerminated
-	}
+	f.mx.Lock()
+	defer f.mx.Unlock()
 
-	return
+	f.incs[key] = 1 // incremented by the Want
+	return obj.Val, obj.RC, err
 }
 
-// Pre used to prerequest an item to get it late. The Get increments
-// filling rc in the Cache. And to not increment the rc twice for
-// an item this method used. The method doesn't return value, because
-// nobobdy need it. The Pre used to obtain "hard rc" of an item
+// Pre used to prerequest an item to get it late. The method
+// doesn't return value, because nobobdy need it. The Pre used
+// to obtain "hard rc" of an item. If the item has already been
+// visited by the Filler, then the rc is never zero
 func (f *Filler) Pre(key cipher.SHA256) (rc int, err error) {
-	if _, rc, err = f.get(key, 1); err != nil {
+
+	if f.visit(key) == false {
+		return 1, nil
+	}
+
+	if _, rc, err = f.want(key); err != nil {
 		return
 	}
 
@@ -120,19 +149,24 @@ func (f *Filler) isPrerequested(key cipher.SHA256) (ok bool) {
 	return
 }
 
-// Get object from DB or request it usung provided
-// channel. The Get increments references counter
-// of value
+// Get object from DB or request it usung provided channel.
+// The rc is greater then one if the object belongs to a full
+// Root, or if the object has already been visited by the
+// Filler. The val is nil if the object has already been visited
+// and is not prerequested
 func (f *Filler) Get(key cipher.SHA256) (val []byte, rc int, err error) {
 
-	var inc = 1
-
 	if f.isPrerequested(key) == true {
-		inc = 0 // prerequested
+		val, _, err = f.c.Get(key, 0)
+		return val, 2, err
 	}
 
-	val, rc, err = f.get(key, inc)
-	return
+	if f.visit(key) == false {
+		return nil, 2, nil
+	}
+
+	val, rc, err = f.want(key)
+	return val, rc + 1, err
 }
 
 // Fail used to terminate the Filler with
@@ -148,43 +182,41 @@ func (f *Filler) Fail(err error) {
 // internal methods
 //
 
-// if the item was requested by this filler,
-// then we can force split* methods to skip it
-// even if the item relates to this filling
-// Root only (is not hard)
-func (f *Filler) inc(key cipher.SHA256, drc int) (rc int) {
-	f.mx.Lock()
-	defer f.mx.Unlock()
-
-	rc = drc
-
-	var finc, ok = f.incs[key]
+func (f *Filler) request(
+	key cipher.SHA256,
+	gc <-chan Object,
+) (
+	obj Object,
+	ok bool,
+) {
 
-	if ok == true {
-		rc++
+	select {
+	case f.rq <- key:
+	case <-f.closeq:
+		return
 	}
 
-	f.incs[key] = finc + 1 // +1 want (+1 finc)
-	return
-}
-
-func (f *Filler) requset(key cipher.SHA256) (ok bool) {
-
 	select {
-	case f.rq <- key:
+	case obj = <-gc:
 		ok = true
 	case <-f.closeq:
 	}
+
 	return
 }
 
+func (f *Filler) terminate() {
+	f.closeo.Do(func() { close(f.closeq) })
+}
+
 // Close terminates the Split walking and waits for
-// goroutines the split creates
+// the Run and goroutines it creates
 func (f *Filler) Close() {
-	f.closeo.Do(func() {
-		close(f.closeq)
-		f.await.Wait()
-	})
+	f.mx.Lock()
+	f.terminate()
+	f.mx.Unlock()
+
+	f.await.Wait()
 }
 
 // Fill given Root returns Filler that fills given
@@ -219,16 +251,66 @@ func (c *Container) Fill(
 	return
 }
 
-func (f *Filler) apply() {
-	for key, inc := range f.incs {
-		if err := f.c.Finc(key, inc); err != nil {
-			panic("DB failure: " + err.Error()) // TODO: handle the error
+// hold all objects of the collected Root; an object
+// holds its subtree once regardless of number of
+// references to the object
+func (f *Filler) hold() (err error) {
+
+	var held []cipher.SHA256
+
+	err = f.c.Walk(f.r, func(
+		hash cipher.SHA256,
+		_ int,
+	) (
+		deepper bool,
+		err error,
+	) {
+
+		if hash == (cipher.SHA256{}) || hash == f.r.Hash {
+			return // the Root is held by the Run
+		}
+
+		var rc int
+		if rc, err = f.c.Inc(hash, 1); err != nil {
+			return
 		}
+
+		held = append(held, hash)
+		return rc == 1, nil
+	})
+
+	if err == nil {
+		return
 	}
+
+	// an object has been deleted during the filling
+	for i := len(held) - 1; i >= 0; i-- {
+		f.inc(held[i], -1)
+	}
+
+	return
 }
 
+// release all objects of the Root held by the hold
+// method, and the Root
+func (f *Filler) release() {
+	if err := f.c.delRootRelatedValues(f.r.Hash); err != nil {
+		panic("DB failure: " + err.Error()) // TODO: handle the error
+	}
+}
+
+func (f *Filler) inc(key cipher.SHA256, inc int) {
+	if _, err := f.c.Inc(key, inc); err != nil {
+		panic("DB failure: " + err.Error()) // TODO: handle the error
+	}
+}
+
+// reject incs of the first stage
 func (f *Filler) reject() {
 	for key, inc := range f.incs {
+		if inc == 0 {
+			continue // has not been received
+		}
 		if err := f.c.Finc(key, -inc); err != nil {
 			panic("DB failure: " + err.Error()) // TODO: handle the error
 		}
@@ -253,7 +335,7 @@ func (f *Filler) acquire() (parall bool) {
 
 }
 
-func (f *Filler) release() {
+func (f *Filler) freeLimit() {
 	if f.limit != nil {
 		<-f.limit
 	}
@@ -266,10 +348,10 @@ func (f *Filler) Go(fn func()) {
 
 		// parallel
 
-		f.await.Add(1)
+		f.tasks.Add(1)
 		go func() {
-			defer f.await.Done()
-			defer f.release()
+			defer f.tasks.Done()
+			defer f.freeLimit()
 			fn()
 		}()
 
@@ -286,51 +368,116 @@ func (f *Filler) Go(fn func()) {
 // until finish or first error
 func (f *Filler) Run() (err error) {
 
+	f.mx.Lock()
+
+	select {
+	case <-f.closeq:
+		f.mx.Unlock()
+		return ErrTerminated
+	default:
+	}
+
+	if f.run == true {
+		f.mx.Unlock()
+		return ErrTerminated // can't be used twice
+	}
+
+	f.run = true
+	f.await.Add(1) // for the Close
+
+	f.mx.Unlock()
+
+	defer f.await.Done()
+	defer f.terminate()
+
 	// save Root
 
 	if _, err = f.c.Set(f.r.Hash, f.r.Encode(), 1); err != nil {
 		return
 	}
 
-	f.inc(f.r.Hash, 0) // increment
-
-	defer func() {
-		if err != nil {
-			f.r.IsFull = false // reset
-			f.reject()
-		} else {
-			f.apply()
-		}
-	}()
+	defer f.reject()
 
-	if err = f.getRegistry(); err != nil {
+	if err = f.collect(); err != nil {
+		f.inc(f.r.Hash, -1)
 		return
 	}
 
-	for _, dr := range f.r.Refs {
-
-		// the closure is data-race protection
-		func(dr registry.Dynamic) {
-			f.Go(func() { dr.Split(f) })
-		}(dr)
+	return f.save()
+}
 
-	}
+// collect all objects of the Root
+func (f *Filler) collect() (err error) {
 
 	var done = make(chan struct{})
 
+	// the Go can perform a task in the very goroutine, thus a
+	// separate goroutine is used to handle failures at once
 	go func() {
-		f.await.Wait() // wait group
-		close(done)
+		defer close(done)
+
+		if err := f.getRegistry(); err != nil {
+			f.Fail(err)
+			return
+		}
+
+		for _, dr := range f.r.Refs {
+
+			// the closure is data-race protection
+			func(dr registry.Dynamic) {
+				f.Go(func() { dr.Split(f) })
+			}(dr)
+
+		}
+
+		f.tasks.Wait() // wait group
 	}()
 
 	select {
 	case err = <-f.errq:
+		f.terminate()
+		<-done
+		return
 	case <-done:
-		f.r.IsFull = true // full!
-		_, err = f.c.AddRoot(f.r)
 	}
 
-	f.Close()
+	// the last task can fail
+
+	select {
+	case err = <-f.errq:
+		return
+	case <-f.closeq:
+		return ErrTerminated
+	default:
+	}
+
+	return
+}
+
+// hold and save the collected Root
+func (f *Filler) save() (err error) {
+
+	// if another filler has hold an object, then we don't hold subtree
+	// of the object, and the subtree should be held (or released, if the
+	// filler fails) before
+	f.c.fillmx.Lock()
+	defer f.c.fillmx.Unlock()
+
+	if err = f.hold(); err != nil {
+		f.inc(f.r.Hash, -1)
+		return
+	}
+
+	f.r.IsFull = true // full!
+
+	var alreadyHave bool
+	if alreadyHave, err = f.c.AddRoot(f.r); err != nil {
+		f.r.IsFull = false // reset
+	}
+
+	if err != nil || alreadyHave == true {
+		f.release() // it is not saved, or it has been saved before
+	}
 
 	return
 }
-- 
2.43.0


From e3deb7ac771c4ecdc74b541b3fa5d78c4f2d065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:50 +0000
Subject: [PATCH 47/83] fix: deleting of a Root concurrent with saving of a
 filled one breaks references counters

---
 skyobject/index.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index eb567b0..7a98d34 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -659,7 +659,7 @@ func (i *Index) DelFeed(pk cipher.PubKey) (err error) {
 
 	// without lock
 	for _, hash := range rhs {
-		if err = i.delRootRelatedValues(hash); err != nil {
+		if err = i.delRootRelatedValuesLock(hash); err != nil {
 			return
 		}
 	}
@@ -758,7 +758,7 @@ func (i *Index) DelHead(pk cipher.PubKey, nonce uint64) (err error) {
 	// without lock
 
 	for _, hash := range rhs {
-		if err = i.delRootRelatedValues(hash); err != nil {
+		if err = i.delRootRelatedValuesLock(hash); err != nil {
 			return
 		}
 	}
@@ -934,6 +934,17 @@ func (i *Index) delPackWalkFunc(
 	return
 }
 
+// delRootRelatedValuesLock is delRootRelatedValues
+// that never interferes with saving of filled Root
+// objects
+func (i *Index) delRootRelatedValuesLock(rootHash cipher.SHA256) (err error) {
+
+	i.c.fillmx.Lock()
+	defer i.c.fillmx.Unlock()
+
+	return i.delRootRelatedValues(rootHash)
+}
+
 // delRootRelatedValues decrements all values related to
 // given Root, including the Root itself and its Registry
 func (i *Index) delRootRelatedValues(rootHash cipher.SHA256) (err error) {
@@ -966,7 +977,7 @@ func (i *Index) DelRoot(pk cipher.PubKey, nonce, seq uint64) (err error) {
 	}
 
 	// without lock
-	return i.delRootRelatedValues(rootHash)
+	return i.delRootRelatedValuesLock(rootHash)
 }
 
 // Feeds returns list of feeds. For performance
-- 
2.43.0


From 4b1fb9b38ef88d48eb259c50ddf101d90474a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:46 +0000
Subject: [PATCH 48/83] fix: a Root is marked as full if another Root with the
 same seq is saved

---
 skyobject/fill.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/skyobject/fill.go b/skyobject/fill.go
index 4fde41c..16e858b 100644
--- a/skyobject/fill.go
+++ b/skyobject/fill.go
@@ -1,10 +1,12 @@
 package skyobject
 
 import (
+	"errors"
 	"sync"
 
 	"github.com/skycoin/skycoin/src/cipher"
 
+	"github.com/skycoin/cxo/data"
 	"github.com/skycoin/cxo/skyobject/registry"
 )
 
@@ -463,14 +465,20 @@ func (f *Filler) save() (err error) {
 	f.c.fillmx.Lock()
 	defer f.c.fillmx.Unlock()
 
-	if err = f.hold(); err != nil {
+	var alreadyHave bool
+
+	if alreadyHave, err = f.isSaved(); err == nil && alreadyHave == false {
+		err = f.hold()
+	}
+
+	if err != nil || alreadyHave == true {
+		f.r.IsFull = (err == nil)
 		f.inc(f.r.Hash, -1)
 		return
 	}
 
 	f.r.IsFull = true // full!
 
-	var alreadyHave bool
 	if alreadyHave, err = f.c.AddRoot(f.r); err != nil {
 		f.r.IsFull = false // reset
 	}
@@ -482,6 +490,25 @@ func (f *Filler) save() (err error) {
 	return
 }
 
+// check out the Root, it can be saved by another filler
+func (f *Filler) isSaved() (yep bool, err error) {
+
+	var dr *data.Root
+	dr, err = f.c.dataRoot(f.r.Pub, f.r.Nonce, f.r.Seq)
+
+	switch {
+	case err == data.ErrNoSuchHead || err == data.ErrNotFound:
+		return false, nil
+	case err != nil:
+		return // no such feed, or DB failure
+	case dr.Hash != f.r.Hash:
+		// the owner signs many Root objects with the same seq
+		return false, errors.New("already have another Root: " + f.r.Short())
+	}
+
+	return true, nil
+}
+
 func (f *Filler) getRegistry() (err error) {
 
 	if f.r.Reg == (registry.RegistryRef{}) {
-- 
2.43.0


From 36ff00c337222bc04a1947cc07af20a77f718796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:52 +0000
Subject: [PATCH 49/83] fix: Preview requests every object from remote peer
 even if DB already has it

---
 skyobject/preview.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skyobject/preview.go b/skyobject/preview.go
index 270f4b2..9be2082 100644
--- a/skyobject/preview.go
+++ b/skyobject/preview.go
@@ -47,8 +47,8 @@ func (p *Preview) Get(key cipher.SHA256) (val []byte, err error) {
 		return // alrady received
 	}
 
-	if val, err = p.Pack.Get(key); err != nil && err != data.ErrNotFound {
-		return // db failure
+	if val, err = p.Pack.Get(key); err != data.ErrNotFound {
+		return // found, or db failure
 	}
 
 	// not found
-- 
2.43.0


From 7c120255dbbe4b1848b82146ac6bb7862c4b25f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:47 +0000
Subject: [PATCH 50/83] fix: RemoveObjects blocks forever if the Container is
 used meanwhile

---
 cxoutils/cxoutils.go | 24 ++++++++++++++++++++----
 skyobject/cache.go   | 39 ++++++++++++++++++++++++++++++++++++++-
 2 files changed, 58 insertions(+), 5 deletions(-)

diff --git a/cxoutils/cxoutils.go b/cxoutils/cxoutils.go
index 501ef27..1e6d44d 100644
--- a/cxoutils/cxoutils.go
+++ b/cxoutils/cxoutils.go
@@ -85,13 +85,29 @@ func RemoveRootObjects(c *skyobject.Container, keepLast int) (err error) {
 // RemoveObjects with rc == 0 from CXDS
 func RemoveObjects(c *skyobject.Container) (err error) {
 
-	var db = c.DB().CXDS()
+	// the CXDS is locked while it iterates, and the Container uses
+	// the CXDS under its own lock; thus, collect the objects first
 
-	err = db.IterateDel(
-		func(key cipher.SHA256, rc uint32, _ []byte) (bool, error) {
-			return (rc == 0) && (c.IsCached(key) == false), nil
+	var unused []cipher.SHA256
+
+	err = c.DB().CXDS().Iterate(
+		func(key cipher.SHA256, rc uint32, _ []byte) (_ error) {
+			if rc == 0 {
+				unused = append(unused, key)
+			}
+			return
 		})
 
+	if err != nil {
+		return
+	}
+
+	for _, key := range unused {
+		if _, err = c.RemoveUnused(key); err != nil {
+			return
+		}
+	}
+
 	return
 }
 
diff --git a/skyobject/cache.go b/skyobject/cache.go
index a9d1ebc..2fb6917 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -662,7 +662,9 @@ func (c *Cache) get(
 // "resurrected" if it's cached (e.g. its rc will be increased
 // from zero).
 //
-// Use this method cleaning up DB.
+// Don't call the method inside an iteration over the DB, since
+// an iteration locks the DB, and the Cache uses the DB under lock.
+// See also RemoveUnused.
 func (c *Cache) IsCached(key cipher.SHA256) (yep bool) {
 
 	c.mx.Lock()
@@ -672,6 +674,41 @@ func (c *Cache) IsCached(key cipher.SHA256) (yep bool) {
 	return
 }
 
+// RemoveUnused removes object with given key from DB if
+// the object is not cached (see IsCached) and its references
+// counter is zero. The check and the removing are one atomic
+// action for the Container. The method returns true if the
+// object has been removed.
+//
+// Use this method cleaning up DB.
+func (c *Cache) RemoveUnused(key cipher.SHA256) (removed bool, err error) {
+
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	if _, ok := c.is[key]; ok == true {
+		return
+	}
+
+	var rc uint32
+	if _, rc, err = c.db().Get(key, 0); err != nil {
+		if err == data.ErrNotFound {
+			err = nil // already removed
+		}
+		return
+	}
+
+	if rc != 0 {
+		return
+	}
+
+	if err = c.db().Del(key); err != nil {
+		return
+	}
+
+	return true, nil
+}
+
 // Get from cache or DB, increasing, leaving as is, or
 // reducing references counter. For most reading cases
 // the inc argument should be zero. If value doesn't
-- 
2.43.0


From 8dbcf6ab32cfa451e8196c92c2f856196aa8a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:59 +0000
Subject: [PATCH 51/83] fix: RemoveRootObjects stops at a gap between seq
 numbers leaving old Root objects

---
 cxoutils/cxoutils.go | 88 +++++++++++++++++++++++++++++++-------------
 1 file changed, 62 insertions(+), 26 deletions(-)

diff --git a/cxoutils/cxoutils.go b/cxoutils/cxoutils.go
index 1e6d44d..fe03665 100644
--- a/cxoutils/cxoutils.go
+++ b/cxoutils/cxoutils.go
@@ -30,54 +30,90 @@ import (
 // keeps last n-th Root objects of every head.
 func RemoveRootObjects(c *skyobject.Container, keepLast int) (err error) {
 
+	if keepLast < 0 {
+		return // keep all
+	}
+
 	for _, pk := range c.Feeds() {
 
 		var heads []uint64
 		if heads, err = c.Heads(pk); err != nil {
+			if err == data.ErrNoSuchFeed {
+				err = nil // the feed has been deleted
+				continue
+			}
 			return
 		}
 
-	HeadLoop:
 		for _, nonce := range heads {
-			var seq uint64
-			if seq, err = c.LastRootSeq(pk, nonce); err != nil {
-				err = nil // clear
-				continue  // not a real error
-			}
 
-			if seq < uint64(keepLast) {
-				continue
+			var seqs []uint64
+			if seqs, err = oldRoots(c, pk, nonce, keepLast); err != nil {
+				return
 			}
 
-			var goDown = seq - uint64(keepLast) // positive
+			for _, seq := range seqs {
 
-			for ; goDown > 0; goDown-- {
+				err = c.DelRoot(pk, nonce, seq)
 
-				if err = c.DelRoot(pk, nonce, goDown); err != nil {
-					if err == data.ErrNotFound {
-						err = nil // clear error
-						continue HeadLoop
-					}
-					return // a failure (CXDS not found error?)
+				switch err {
+				case nil, data.ErrNotFound:
+					err = nil // deleted
+				case data.ErrNoSuchFeed, data.ErrNoSuchHead:
+					err = nil // deleted with the head
+				default:
+					return // a failure
 				}
 
 			}
 
-			// seq = 0 (goDown == 0)
-			if err = c.DelRoot(pk, nonce, 0); err != nil {
-				if err == data.ErrNotFound {
-					err = nil // clear error
-					continue HeadLoop
-				}
+		} // head loop
+
+	} // feed loop
+
+	return
+}
 
+// seq numbers of all Root objects of given head, except last n-th,
+// from new to old; the numbers can have gaps
+func oldRoots(
+	c *skyobject.Container, //
+	pk cipher.PubKey, //
+	nonce uint64, //
+	keepLast int, //
+) (
+	seqs []uint64, //
+	err error, //
+) {
+
+	err = c.DB().IdxDB().Tx(func(feeds data.Feeds) (err error) {
+
+		var hs data.Heads
+		if hs, err = feeds.Heads(pk); err != nil {
+			return
+		}
+
+		var rs data.Roots
+		if rs, err = hs.Roots(nonce); err != nil {
+			return
+		}
+
+		var keep = keepLast
+
+		return rs.Descend(func(r *data.Root) (_ error) {
+			if keep > 0 {
+				keep--
 				return
 			}
+			seqs = append(seqs, r.Seq)
+			return
+		})
 
-			// continue HeadLoop
-
-		} // head loop
+	})
 
-	} // feed loop
+	if err == data.ErrNoSuchFeed || err == data.ErrNoSuchHead {
+		err = nil // the head has been deleted
+	}
 
 	return
 }
-- 
2.43.0


From dccbba3defad6feae764f192531fdde68087cd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:36 +0000
Subject: [PATCH 52/83] fix: objects of a Root can be lost or leaked if several
 Unpacks are used at the same time

---
 skyobject/cache.go  |  53 +++++++++++++++
 skyobject/unpack.go | 155 +++++++++++++++-----------------------------
 2 files changed, 106 insertions(+), 102 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 2fb6917..ca2a62a 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -1181,6 +1181,59 @@ func (c *Cache) SetWanted(
 	return c.setWanted(key, val, 0, it)
 }
 
+// pin is like the Set with 1, but the increment is not
+// hard: it is like an inc of a filler. The pin protects
+// a value, that doesn't belong to a Root yet, against
+// removing. Use the Finc with -1 to unpin
+func (c *Cache) pin(key cipher.SHA256, val []byte) (err error) {
+
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	var it, ok = c.is[key]
+
+	if ok == true {
+
+		// the fc first, since methods below calculate hard rc
+
+		it.fc++
+
+		switch {
+		case it.isWanted() == true:
+			_, err = c.setWanted(key, val, 1, it)
+		case it.isFilling() == true:
+			_, err = c.setFilling(key, val, 1, it)
+		default:
+			it.cc++
+			c.stat.addWritingCacheRequest() // effective cache set
+			it.touch(c.c.conf.CachePolicy)
+		}
+
+		if err != nil {
+			it.fc--
+		}
+
+		return
+	}
+
+	if len(val) > c.c.conf.MaxObjectSize {
+		return &ObjectIsTooLargeError{key}
+	}
+
+	var urc uint32
+	urc, err = c.db().Set(key, val, 1)
+	c.stat.addWritingDBRequest()
+
+	if err != nil {
+		return
+	}
+
+	it = &item{fc: 1}
+	c.is[key] = it
+
+	return c.putFillingItem(val, int(urc), it)
+}
+
 // Finc is like the Inc, but it used by fillers to
 // apply incs of filler or reject them. See the
 // Want for details. The method does nothing is
diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index 3743566..3f690c7 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -10,47 +10,25 @@ import (
 	"github.com/skycoin/cxo/skyobject/registry"
 )
 
-type unpackItem struct {
-	inc     int  // saved times
-	dec     int  // used times
-	created bool // created
-}
-
 // An Unpack implements registry.Pack
 // and used to change or cerate a Root
 type Unpack struct {
-	m     map[cipher.SHA256]*unpackItem // hash -> rc
-	c     *Container                    // Set method
-	*Pack                               // other methods
-	sk    cipher.SecKey                 // owner
-}
-
-func (u *Unpack) reset() {
-	for _, ui := range u.m {
-		ui.dec = 0
-	}
+	m     map[cipher.SHA256]int // hash -> pinned times
+	c     *Container            // Set method
+	*Pack                       // other methods
+	sk    cipher.SecKey         // owner
 }
 
-// Set value
+// Set value. The value is pinned until the Unpack
+// is saved or closed, but the value doesn't belong
+// to a Root until that
 func (u *Unpack) Set(key cipher.SHA256, val []byte) (err error) {
 
-	var rc int
-	if rc, err = u.c.Set(key, val, 1); err != nil {
+	if err = u.c.pin(key, val); err != nil {
 		return
 	}
 
-	var ui, ok = u.m[key]
-
-	if ok == false {
-		ui = new(unpackItem)
-		u.m[key] = ui
-	}
-
-	ui.inc++
-	if rc == 1 {
-		ui.created = true // by this or by a previous Set
-	}
-
+	u.m[key]++
 	return
 }
 
@@ -86,7 +64,7 @@ func (c *Container) Unpack(
 	up = &Unpack{
 		sk:   sk,
 		c:    c,
-		m:    make(map[cipher.SHA256]*unpackItem),
+		m:    make(map[cipher.SHA256]int),
 		Pack: c.getPack(reg),
 	}
 
@@ -129,11 +107,20 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 
 	}
 
+	// fillers and deleting of Root objects change hard rc too
+	c.fillmx.Lock()
+	defer c.fillmx.Unlock()
+
 	// walk the Root first
 
+	var held []cipher.SHA256 // by the Root
+
 	defer func() {
-		if err != nil {
-			up.reset()
+		if err == nil {
+			return
+		}
+		for i := len(held) - 1; i >= 0; i-- {
+			c.Inc(held[i], -1)
 		}
 	}()
 
@@ -151,48 +138,20 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 				return
 			}
 
-			// go deepper only if the object was created
-
-			var ui, ok = up.m[hash]
-
-			if ok == false {
-				// this object was not created, then it already
-				// exists in the CXDS, and we have to increment
-				// rc of the object
-
-				var rc int
-				if rc, err = c.Inc(hash, 1); err != nil {
-					return
-				}
-
-				// if the object was not used by a Root (rc was zero) then
-				// its subtree is released, and we have to hold it again
-				deepper = (rc == 1)
-
-				// for Close
-				up.m[hash] = &unpackItem{inc: 1, dec: 1, created: deepper}
+			// the rc is hard rc, e.g. it doesn't include pins of
+			// this and other Unpacks; if the object doesn't belong
+			// to another Root (the rc was zero), then its subtree
+			// is not held yet; an object holds its subtree once,
+			// regardless of number of references to the object
 
+			var rc int
+			if rc, err = c.Inc(hash, 1); err != nil {
 				return
 			}
 
-			// here we reduce the ui.inc; if end-user saves an
-			// object many times (or the object saved by Refs
-			// modifications, for example if it's hash of
-			// node of the Refs), then the inc will be greater
-			// then one
-			//
-			// ui.inc - times saved
-			// ui.dec - times used
-			//
-			// at the end of the Save we call c.Inc(key, ui.dec - ui.inc)
-			// for every value (if the difference is not zero) to make
-			// values in CXDS actual
-
-			ui.dec++ // used
-
-			// an object holds its subtree once, regardless
-			// of number of references to the object
-			deepper = ui.created && ui.dec == 1
+			held = append(held, hash)
+
+			deepper = (rc == 1)
 			return
 
 		})
@@ -217,40 +176,26 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 		return
 	}
 
+	// the Root is in the Index
+
+	held = nil
+
 	// save the Root in CXDS
 
-	if err = up.Set(r.Hash, val); err != nil {
+	if _, err = c.Set(r.Hash, val, 1); err != nil {
 		return
 	}
 
 	// save registry
 
-	if err = up.Set(cipher.SHA256(r.Reg), up.Registry().Encode()); err != nil {
+	_, err = c.Set(cipher.SHA256(r.Reg), up.Registry().Encode(), 1)
+	if err != nil {
 		return
 	}
 
-	// make rc of related objects actual
-
-	for key, ui := range up.m {
-
-		if key == r.Hash || key == cipher.SHA256(r.Reg) {
-			ui.dec++
-		}
-
-		var inc = ui.dec - ui.inc
+	// the objects belong to the Root, others are not used
 
-		if inc != 0 {
-			// make actual
-			if _, err = c.Inc(key, inc); err != nil {
-				return // leave the CXDS broken if an error occurred
-			}
-		}
-
-		delete(up.m, key) // saved
-
-	}
-
-	return
+	return up.unpin()
 }
 
 func (i *Index) saveRoot(
@@ -355,16 +300,22 @@ func (c *Container) NewRoot(
 
 */
 
+// release all saved objects
+func (u *Unpack) unpin() (err error) {
+	for key, times := range u.m {
+		if err = u.c.Finc(key, -times); err != nil {
+			return // leave the CXDS broken if an error occurred
+		}
+		delete(u.m, key)
+	}
+	return
+}
+
 // Close the Unpack, rejecting all saved objects that
 // will not be used
 func (u *Unpack) Close() (err error) {
-	for key, ui := range u.m {
-		if ui.inc > 0 {
-			if _, err = u.c.Inc(key, -ui.inc); err != nil {
-				return
-			}
-		}
+	if err = u.unpin(); err == nil {
+		u.m = nil
 	}
-	u.m = nil
 	return
 }
-- 
2.43.0


From a03a2e1c90387fdea15f47e286bdab5ada7a7fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:09 +0000
Subject: [PATCH 53/83] fix: feeds and heads of a Node wait for each other, a
 slow peer or a callback blocks whole Node

---
 node/conn.go      | 135 +++++++++++++++++++++++++++++++++++++++++-----
 node/feed.go      |  13 ++---
 node/feeds.go     |  50 ++++++++++++-----
 node/handshake.go |   8 +--
 node/head.go      | 132 ++++++++++++++++++++++++++++-----------------
 5 files changed, 250 insertions(+), 88 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index a482566..104edfe 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -35,6 +35,11 @@ type Conn struct {
 
 	sendq chan<- []byte // channel from factory.Connection
 
+	outmx  sync.Mutex
+	out    []outMsg      // messages to send, in order
+	outq   chan struct{} // there are messages to send
+	outsem chan struct{} // limit of the messages (except pushed)
+
 	// # stat
 	//
 	// TODO (kostyarin): stat without mutexes to do not slow down the connection
@@ -64,6 +69,9 @@ func (n *Node) newConnection(
 
 		sendq: fc.GetChanOut(),
 
+		outq:   make(chan struct{}, 1),
+		outsem: make(chan struct{}, maxOutMsgs),
+
 		reqs: make(map[uint32]chan<- msg.Msg),
 	}
 
@@ -88,6 +96,9 @@ func (c *Conn) run() {
 		}
 	}()
 
+	c.await.Add(1)
+	go c.sendMsgs()
+
 	// If OnConnect returns error, connection will be closed.
 	var occErr error
 	if occErr = c.n.onConnect(c); occErr != nil {
@@ -231,8 +242,8 @@ func (c *Conn) RemoteFeeds() (feeds []cipher.PubKey, err error) {
 	return
 }
 
-func (c *Conn) sendRoot(r *registry.Root) {
-	c.sendMsg(c.nextSeq(), 0, &msg.Root{
+func rootMsg(r *registry.Root) *msg.Root {
+	return &msg.Root{
 		Feed:  r.Pub,
 		Nonce: r.Nonce,
 		Seq:   r.Seq,
@@ -240,7 +251,11 @@ func (c *Conn) sendRoot(r *registry.Root) {
 		Value: r.Encode(),
 
 		Sig: r.Sig,
-	})
+	}
+}
+
+func (c *Conn) sendRoot(r *registry.Root) {
+	c.sendMsg(c.nextSeq(), 0, rootMsg(r))
 }
 
 // send last Root to peer
@@ -305,7 +320,7 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 
 // just send the messege
 func (c *Conn) unsubscribe(pk cipher.PubKey) {
-	c.sendMsg(c.nextSeq(), 0, &msg.Unsub{
+	c.pushMsg(&msg.Unsub{
 		Feed: pk,
 	})
 }
@@ -428,6 +443,16 @@ func (c *Conn) encodeMsg(seq, rseq uint32, m msg.Msg) (raw []byte) {
 
 }
 
+// limit of messages, that wait to be sent
+const maxOutMsgs = 64
+
+type outMsg struct {
+	seq, rseq uint32
+	m         msg.Msg
+	pushed    bool // not limited
+}
+
+// sendMsg blocks if the peer is too slow
 func (c *Conn) sendMsg(seq, rseq uint32, m msg.Msg) error {
 	c.n.Debugf(MsgSendPin, "[%s] send %d %T", c.String(), rseq, m)
 
@@ -437,11 +462,101 @@ func (c *Conn) sendMsg(seq, rseq uint32, m msg.Msg) error {
 	default:
 	}
 
-	c.sendq <- c.encodeMsg(seq, rseq, m)
+	select {
+	case c.outsem <- struct{}{}:
+	case <-c.closeq:
+		return ErrClosed
+	}
 
+	c.addOutMsg(outMsg{seq, rseq, m, false})
 	return nil
 }
 
+// pushMsg never blocks, it's used by goroutine of the feeds, that
+// must not wait for a slow peer; a newer Root replaces an older one
+// that is not sent yet
+func (c *Conn) pushMsg(m msg.Msg) {
+	c.n.Debugf(MsgSendPin, "[%s] push %T", c.String(), m)
+
+	select {
+	case <-c.closeq:
+		return
+	default:
+	}
+
+	c.addOutMsg(outMsg{c.nextSeq(), 0, m, true})
+}
+
+func (c *Conn) addOutMsg(om outMsg) {
+	c.outmx.Lock()
+	defer c.outmx.Unlock()
+
+	if r, ok := om.m.(*msg.Root); ok == true && om.pushed == true {
+		for i, x := range c.out {
+			if x.pushed == false {
+				continue
+			}
+			if z, ok := x.m.(*msg.Root); ok == true &&
+				z.Feed == r.Feed && z.Nonce == r.Nonce && z.Seq <= r.Seq {
+
+				c.out = append(c.out[:i], c.out[i+1:]...)
+				break
+			}
+		}
+	}
+
+	c.out = append(c.out, om)
+
+	select {
+	case c.outq <- struct{}{}:
+	default:
+	}
+}
+
+// (async) send messages one by one
+func (c *Conn) sendMsgs() {
+	defer c.await.Done()
+
+	for {
+
+		select {
+		case <-c.outq:
+		case <-c.closeq:
+			return
+		}
+
+		for {
+
+			c.outmx.Lock()
+			if len(c.out) == 0 {
+				c.outmx.Unlock()
+				break
+			}
+			var om = c.out[0]
+			c.out = c.out[1:]
+			c.outmx.Unlock()
+
+			if c.sendRaw(c.encodeMsg(om.seq, om.rseq, om.m)) != nil {
+				return
+			}
+
+			if om.pushed == false {
+				<-c.outsem
+			}
+		}
+
+	}
+}
+
+func (c *Conn) sendRaw(raw []byte) error {
+	select {
+	case c.sendq <- raw:
+		return nil
+	case <-c.closeq:
+		return ErrClosed
+	}
+}
+
 func (c *Conn) receiveMsg() error {
 	c.n.Debugf(ConnPin, "[%s] receiving", c.String())
 
@@ -823,15 +938,7 @@ func (c *Conn) handleRqPreview(seq uint32, rqp *msg.RqPreview) (_ error) {
 		return
 	}
 
-	c.sendMsg(c.nextSeq(), seq, &msg.Root{
-		Feed:  r.Pub,
-		Nonce: r.Nonce,
-		Seq:   r.Seq,
-
-		Value: r.Encode(),
-
-		Sig: r.Sig,
-	})
+	c.sendMsg(c.nextSeq(), seq, rootMsg(r))
 
 	return
 }
diff --git a/node/feed.go b/node/feed.go
index 6e28e65..9f8ff21 100644
--- a/node/feed.go
+++ b/node/feed.go
@@ -70,10 +70,7 @@ func (n *nodeFeed) receivedRoot(cr connRoot) {
 			copy(n.ho, n.ho[1:])           // shift all
 			n.ho[len(n.ho)-1] = cr.r.Nonce // push
 
-			var tormh = n.hs[torm]
-
-			tormh.errq <- ErrMaxHeadsLimit
-			tormh.close() // wait
+			n.hs[torm].closeByError(ErrMaxHeadsLimit)
 
 			delete(n.hs, torm) // remove
 
@@ -94,7 +91,7 @@ func (n *nodeFeed) close() {
 	}
 
 	for _, nh := range n.hs {
-		nh.close() // close head
+		nh.close() // close head (without waiting)
 	}
 
 	for c := range n.cs {
@@ -103,15 +100,15 @@ func (n *nodeFeed) close() {
 
 }
 
-func (n *nodeFeed) broadcastRoot(cr connRoot) {
+func (n *nodeFeed) broadcastRoot(br broRoot) {
 
 	for c := range n.cs {
 
-		if c == cr.c {
+		if c == br.c {
 			continue
 		}
 
-		c.sendRoot(cr.r)
+		c.pushMsg(br.m)
 	}
 
 }
diff --git a/node/feeds.go b/node/feeds.go
index d615f3c..c1b2db9 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/skycoin/skycoin/src/cipher"
 
+	"github.com/skycoin/cxo/node/msg"
 	"github.com/skycoin/cxo/skyobject/registry"
 )
 
@@ -14,6 +15,12 @@ type connRoot struct {
 	r *registry.Root
 }
 
+// a Root to broadcast
+type broRoot struct {
+	c *Conn     // except this connection
+	m *msg.Root // the encoded Root
+}
+
 // connection and feed
 type connFeed struct {
 	c *Conn
@@ -37,7 +44,12 @@ type nodeFeeds struct {
 
 	delcq chan *Conn // delete connection (closed connection and similar)
 
-	brorq chan connRoot // broadcast root to feed (triggered by head)
+	// broadcast root to feed (triggered by head); a head must not wait
+	// for the feeds, because the feeds can wait for the head
+
+	bromx sync.Mutex
+	bro   []broRoot     // roots to broadcast
+	brorq chan struct{} // there are roots to broadcast
 
 	// info api
 
@@ -86,7 +98,7 @@ func newNodeFeeds(node *Node) (n *nodeFeeds) {
 
 	n.delcq = make(chan *Conn)
 
-	n.brorq = make(chan connRoot)
+	n.brorq = make(chan struct{}, 1)
 
 	// info api
 
@@ -175,8 +187,8 @@ func (n *nodeFeeds) handle() {
 		case cf = <-delcfq:
 			n.handleDelConnFeed(cf)
 
-		case cr = <-broq:
-			n.handleBroadcastRoot(cr)
+		case <-broq:
+			n.handleBroadcastRoot()
 
 		case pk = <-addq:
 			n.handleAddFeed(pk)
@@ -366,26 +378,40 @@ func (n *nodeFeeds) handleDelConnFeed(cf connFeed) {
 
 }
 
-// (bubbling api)
+// (bubbling api) never blocks
 func (n *nodeFeeds) broadcastRoot(cr connRoot) {
 
+	// the Root belongs to caller, thus encode it here
+
+	var br = broRoot{cr.c, rootMsg(cr.r)}
+
+	n.bromx.Lock()
+	n.bro = append(n.bro, br)
+	n.bromx.Unlock()
+
 	select {
-	case n.brorq <- cr:
-	case <-n.closeq:
+	case n.brorq <- struct{}{}:
+	default:
 	}
 
 }
 
 // (handler)
-func (n *nodeFeeds) handleBroadcastRoot(cr connRoot) {
+func (n *nodeFeeds) handleBroadcastRoot() {
 
-	var nf, ok = n.fs[cr.r.Pub]
+	n.bromx.Lock()
+	var bro = n.bro
+	n.bro = nil
+	n.bromx.Unlock()
+
+	for _, br := range bro {
+
+		if nf, ok := n.fs[br.m.Feed]; ok == true {
+			nf.broadcastRoot(br)
+		}
 
-	if ok == false {
-		return
 	}
 
-	nf.broadcastRoot(cr)
 }
 
 // (api)
diff --git a/node/handshake.go b/node/handshake.go
index fbe66b5..3327b1f 100644
--- a/node/handshake.go
+++ b/node/handshake.go
@@ -30,7 +30,7 @@ func (c *Conn) performHandshake() error {
 			NodeID:   c.n.idpk,
 		}
 	)
-	if err := c.sendMsg(seq, 0, syn); err != nil {
+	if err := c.sendRaw(c.encodeMsg(seq, 0, syn)); err != nil {
 		return err
 	}
 
@@ -137,7 +137,7 @@ func (c *Conn) acceptHandshake() (err error) {
 					Err: err.Error(),
 				}
 			)
-			if sendErr := c.sendMsg(c.nextSeq(), seq, errMsg); sendErr != nil {
+			if sendErr := c.sendRaw(c.encodeMsg(c.nextSeq(), seq, errMsg)); sendErr != nil {
 				c.n.Error(sendErr, "failed to send err message")
 			}
 
@@ -153,7 +153,7 @@ func (c *Conn) acceptHandshake() (err error) {
 					Err: err.Error(),
 				}
 			)
-			if sendErr := c.sendMsg(c.nextSeq(), seq, errMsg); sendErr != nil {
+			if sendErr := c.sendRaw(c.encodeMsg(c.nextSeq(), seq, errMsg)); sendErr != nil {
 				c.n.Error(sendErr, "faield to send err message")
 			}
 
@@ -164,7 +164,7 @@ func (c *Conn) acceptHandshake() (err error) {
 		ack := &msg.Ack{
 			NodeID: c.n.idpk,
 		}
-		if err := c.sendMsg(c.nextSeq(), seq, ack); err != nil {
+		if err := c.sendRaw(c.encodeMsg(c.nextSeq(), seq, ack)); err != nil {
 			return fmt.Errorf("failed to send ack message: %s", err)
 		}
 
diff --git a/node/head.go b/node/head.go
index d3b46ad..d9fbbb7 100644
--- a/node/head.go
+++ b/node/head.go
@@ -16,9 +16,12 @@ import (
 type nodeHead struct {
 	n *nodeFeed // back reference
 
-	delcq chan *Conn    // delete connection
-	rrq   chan connRoot // received roots
-	errq  chan error    // close with error (max heads limit)
+	// events from the feeds; the feeds never wait for the head,
+	// because the head and its callbacks can wait for the feeds
+
+	mx sync.Mutex
+	ev []headEvent   // events in order
+	eq chan struct{} // there are events
 
 	// api info
 
@@ -37,54 +40,74 @@ func newNodeHead(nf *nodeFeed) (n *nodeHead) {
 
 	n.n = nf
 
-	n.delcq = make(chan *Conn)
-	n.rrq = make(chan connRoot)
-
-	n.errq = make(chan error)
+	n.eq = make(chan struct{}, 1)
 	n.closeq = make(chan struct{})
 
-	n.await.Add(1)
+	nf.fs.await.Add(1)
 	go n.handle()
 
 	return
 }
 
+// one of
+type headEvent struct {
+	cr  connRoot // received Root
+	c   *Conn    // delete connection
+	err error    // close with error (max heads limit)
+}
+
 // (api)
 func (n *nodeHead) closeByError(err error) {
-
-	select {
-	case n.errq <- err:
-	case <-n.closeq:
-	}
-
+	n.event(headEvent{err: err})
 }
 
 // (api)
 func (n *nodeHead) delConn(c *Conn) {
-
-	select {
-	case n.delcq <- c:
-	case <-n.closeq:
-	}
-
+	n.event(headEvent{c: c})
 }
 
 // (api)
 func (n *nodeHead) receivedRoot(cr connRoot) {
+	n.event(headEvent{cr: cr})
+}
+
+// never blocks
+func (n *nodeHead) event(he headEvent) {
+
+	n.mx.Lock()
+	defer n.mx.Unlock()
+
+	if he.cr.r != nil {
+		for _, x := range n.ev {
+			if x.cr.r != nil && x.cr.c == he.cr.c &&
+				x.cr.r.Hash == he.cr.r.Hash {
+				return // already have
+			}
+		}
+	}
+
+	n.ev = append(n.ev, he)
 
 	select {
-	case n.rrq <- cr:
-	case <-n.closeq:
+	case n.eq <- struct{}{}:
+	default:
 	}
 
 }
 
-// (api)
+func (n *nodeHead) events() (ev []headEvent) {
+	n.mx.Lock()
+	defer n.mx.Unlock()
+
+	ev, n.ev = n.ev, nil
+	return
+}
+
+// (api) it doesn't wait, the feeds wait for all heads closing
 func (n *nodeHead) close() {
 	n.closeo.Do(func() {
 		close(n.closeq)
 	})
-	n.await.Wait()
 }
 
 // code readability
@@ -129,13 +152,11 @@ type fillHead struct {
 
 func (n *nodeHead) handle() {
 
-	defer n.await.Done()
+	defer n.n.fs.await.Done()
+	defer n.await.Wait()
 
 	var (
-		delcq  = n.delcq  //
-		rrq    = n.rrq    //
 		closeq = n.closeq //
-		errq   = n.errq   //
 		inforq = n.inforq //
 
 		f = fillHead{
@@ -152,7 +173,6 @@ func (n *nodeHead) handle() {
 
 		key cipher.SHA256
 		c   *Conn
-		cr  connRoot
 		fc  failedRequest
 		err error // fillign failure or nil
 	)
@@ -175,13 +195,25 @@ func (n *nodeHead) handle() {
 
 			f.handleFillingResult(err)
 
-		case cr = <-rrq: // root received
-
-			f.handleReceivedRoot(cr)
-
-		case c = <-delcq: // delete connection
-
-			f.handleDelConn(c)
+		case <-n.eq:
+
+			for _, he := range n.events() {
+				switch {
+				case he.err != nil: // close with error
+					f.p = connRoot{} // remove pending Root
+					if f.f != nil {
+						f.f.Close()
+						f.handleFillingResult(he.err)
+					}
+					n.close()
+					f.terminate()
+					return
+				case he.c != nil: // delete connection
+					f.handleDelConn(he.c)
+				default: // root received
+					f.handleReceivedRoot(he.cr)
+				}
+			}
 
 		case <-f.tc: // filling timeout
 
@@ -194,16 +226,6 @@ func (n *nodeHead) handle() {
 		case <-inforq:
 			n.handleInfo(&f)
 
-		case err = <-errq:
-
-			f.p = connRoot{} // remove pending Root
-			if f.f != nil {
-				f.f.Close()
-				f.handleFillingResult(err)
-			}
-			f.terminate()
-			return
-
 		case <-closeq: // terminate
 
 			f.terminate()
@@ -483,7 +505,7 @@ func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
 	var reply, err = c.sendRequest(&msg.RqObject{Key: key})
 
 	if err != nil {
-		f.failureq <- failedRequest{c, seq, key, err}
+		f.requestFailed(failedRequest{c, seq, key, err})
 		return
 	}
 
@@ -492,7 +514,7 @@ func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
 		var rk = cipher.SumSHA256(x.Value)
 
 		if rk != key {
-			f.failureq <- failedRequest{c, seq, key, ErrInvalidResponse}
+			f.requestFailed(failedRequest{c, seq, key, ErrInvalidResponse})
 			return
 		}
 
@@ -502,14 +524,24 @@ func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
 			return
 		}
 
-		f.successq <- c
+		select {
+		case f.successq <- c:
+		case <-f.closeq:
+		}
 
 	default:
-		f.failureq <- failedRequest{c, seq, key, ErrInvalidResponse}
+		f.requestFailed(failedRequest{c, seq, key, ErrInvalidResponse})
 	}
 
 }
 
+func (f *fillHead) requestFailed(fr failedRequest) {
+	select {
+	case f.failureq <- fr:
+	case <-f.closeq:
+	}
+}
+
 func (f *fillHead) handleDelConn(c *Conn) {
 	delete(f.cs, c) // just remove it from list of known
 
-- 
2.43.0


From 4dd7d4d374f5a3984a0b0c022439509575877819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:07 +0000
Subject: [PATCH 54/83] fix: closing of a Node or a connection panics, blocks
 or leaks

---
 node/conn.go       | 80 ++++++++++++++++++++++++----------------
 node/node.go       | 92 +++++++++++++++++++++++++++++++++++++---------
 node/transports.go | 87 ++++++++++++++-----------------------------
 3 files changed, 150 insertions(+), 109 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 104edfe..5c9a9f5 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -30,8 +30,11 @@ type Conn struct {
 	initErr error
 	initq   chan struct{}
 
-	closeq chan struct{}  // signal for all goroutines to exit
-	await  sync.WaitGroup // wait for all goroutines to exit
+	closeo   sync.Once      // close the closeq once
+	closeErr error          // reason of the closing
+	closeq   chan struct{}  // signal for all goroutines to exit
+	await    sync.WaitGroup // wait for all goroutines to exit
+	doneq    chan struct{}  // closed and removed from the Node
 
 	sendq chan<- []byte // channel from factory.Connection
 
@@ -66,6 +69,7 @@ func (n *Node) newConnection(
 		initq: make(chan struct{}),
 
 		closeq: make(chan struct{}),
+		doneq:  make(chan struct{}),
 
 		sendq: fc.GetChanOut(),
 
@@ -83,49 +87,61 @@ func (c *Conn) waitForInit() error {
 	return c.initErr
 }
 
+// shutdown sends the close signal to all goroutines of the Conn,
+// it can be called many times and doesn't wait the goroutines
+func (c *Conn) shutdown(reason error) {
+	c.closeo.Do(func() {
+		c.closeErr = reason
+		close(c.closeq)
+	})
+}
+
+func (c *Conn) isClosed() bool {
+	select {
+	case <-c.closeq:
+		return true
+	default:
+		return false
+	}
+}
+
 // run defines connection lifecycle.
 func (c *Conn) run() {
+	defer c.n.await.Done()
+
 	// Receive messages, until close signal is received or error occures.
 	// In case of error stop all goroutines, started by connection.
-	var rcvErr error
-	c.await.Add(1)
+	c.await.Add(2)
 	go func() {
 		defer c.await.Done()
-		if rcvErr = c.receiveMsg(); rcvErr != nil {
-			close(c.closeq)
+		if err := c.receiveMsg(); err != nil {
+			c.shutdown(err)
 		}
 	}()
-
-	c.await.Add(1)
 	go c.sendMsgs()
 
+	// The OnConnect can close the Conn, and the Close waits for the terminate.
+	go c.terminate()
+
 	// If OnConnect returns error, connection will be closed.
-	var occErr error
-	if occErr = c.n.onConnect(c); occErr != nil {
-		close(c.closeq)
+	if err := c.n.onConnect(c); err != nil {
+		c.shutdown(err)
 	}
 
-	// Wait for all groutines to exit.
+	<-c.doneq
+
+	c.n.onDisconenct(c, c.closeErr)
+}
+
+// (async) wait for all goroutines to exit, and release everything
+func (c *Conn) terminate() {
+	<-c.closeq
 	c.await.Wait()
 
 	c.n.removeConn(c)
+	c.Connection.Close()
 
-	// Remove connection from trasnport's cache and close factory.Connection.
-	if c.IsTCP() {
-		c.n.tcp.closeConn(c.Address())
-	} else {
-		c.n.udp.closeConn(c.Address())
-	}
-
-	// In connection is closed in case of error, decide which one to pass to OnDisconnect.
-	var odcErr error
-	switch {
-	case rcvErr != nil:
-		odcErr = rcvErr
-	case occErr != nil:
-		odcErr = occErr
-	}
-	c.n.onDisconenct(c, odcErr)
+	close(c.doneq)
 }
 
 func (c *Conn) decodeRaw(raw []byte) (seq, rseq uint32, m msg.Msg, err error) {
@@ -413,12 +429,12 @@ func (c *Conn) getter() (cg skyobject.Getter) {
 	return &cget{c}
 }
 
-// Close the Conn
+// Close the Conn. It's possible to call the Close many times.
+// The Conn is removed from the Node when the Close returns
 func (c *Conn) Close() (err error) {
-	close(c.closeq)
-	c.await.Wait()
+	c.shutdown(nil)
+	<-c.doneq
 
-	// TODO: c.await.Wait() can exit beofre connection is removed from cache.
 	// TODO: get errors from background goroutines and retrun them.
 
 	return nil
diff --git a/node/node.go b/node/node.go
index ddf20bb..a4b10f3 100644
--- a/node/node.go
+++ b/node/node.go
@@ -80,6 +80,7 @@ type Node struct {
 
 	await  sync.WaitGroup // wait for goroutines
 	closeo sync.Once      // close once
+	closed bool           // don't create connections
 }
 
 // NewNode creates new Node instance using provided
@@ -402,10 +403,15 @@ func (n *Node) initConn(
 	if err != nil {
 		return nil, err
 	}
+	defer n.await.Done() // see onNewConn
 
 	switch {
 	// In case of exisitng connection return it.
 	case !isNew && !isPending:
+		if isIncoming {
+			return nil, errors.New("already have connection with the address")
+		}
+		fc.Close() // is not used
 		return c, nil
 
 	// In case of existing pending connnection:
@@ -416,8 +422,8 @@ func (n *Node) initConn(
 		if isIncoming {
 			return nil, errors.New("already have incoming pending connection")
 		}
+		fc.Close() // is not used
 		if err = c.waitForInit(); err != nil {
-			n.onConnInitErr(c, err)
 			return nil, err
 		}
 		return c, nil
@@ -430,8 +436,10 @@ func (n *Node) initConn(
 			return nil, err
 		}
 
-		n.onConnInit(c)
-		go c.run()
+		if err = n.onConnInit(c); err != nil {
+			n.onConnInitErr(c, err)
+			return nil, err
+		}
 
 		return c, nil
 
@@ -448,6 +456,10 @@ func (n *Node) onNewConn(
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.closed == true {
+		return nil, false, false, ErrClosed
+	}
+
 	// Check limits for number of open connections.
 	if len(n.pendConns)+len(n.addrToConn) >= n.config.MaxConnections {
 		return nil, false, false, ErrConnLimit
@@ -458,6 +470,8 @@ func (n *Node) onNewConn(
 
 	addr := fc.GetRemoteAddr().String()
 
+	n.await.Add(1) // for the initConn
+
 	// Check if connection to/from address already exists.
 	if c, ok := n.addrToConn[addr]; ok {
 		return c, false, false, nil
@@ -488,16 +502,30 @@ func (n *Node) onConnInitErr(c *Conn, initErr error) {
 // onConnInit atomically moves pending connection to cache
 // and singals about initConn success. It also chekcs if
 // peer's pubkey, receieved during hanshake is duplicate.
-func (n *Node) onConnInit(c *Conn) {
+func (n *Node) onConnInit(c *Conn) error {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.closed == true {
+		return ErrClosed
+	}
+
 	delete(n.pendConns, c.Address())
 
 	n.addrToConn[c.Address()] = c
 	n.pkToConn[c.peerID] = c
 
+	if c.IsTCP() {
+		n.tcp.addConn(c)
+	} else {
+		n.udp.addConn(c)
+	}
+
+	n.await.Add(1)
+	go c.run()
+
 	close(c.initq)
+	return nil
 }
 
 // removeConn reomoves connection from cache.
@@ -505,8 +533,21 @@ func (n *Node) removeConn(c *Conn) {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
-	delete(n.addrToConn, c.Address())
-	delete(n.pkToConn, c.peerID)
+	// the address and the peer can have another connection already
+
+	if n.addrToConn[c.Address()] == c {
+		delete(n.addrToConn, c.Address())
+	}
+
+	if n.pkToConn[c.peerID] == c {
+		delete(n.pkToConn, c.peerID)
+	}
+
+	if c.IsTCP() {
+		n.tcp.delConn(c)
+	} else {
+		n.udp.delConn(c)
+	}
 }
 
 func (n *Node) updateServiceDiscovery() {
@@ -674,38 +715,53 @@ func (n *Node) Stat() (s *Stat) {
 // of (skyobject.Container).Close once.
 func (n *Node) Close() (err error) {
 	n.closeo.Do(func() {
+
+		// The lock is used by goroutines that we have to wait for.
 		n.mx.Lock()
-		defer n.mx.Unlock()
+		n.closed = true
+
+		var (
+			tcp, udp = n.tcp, n.udp
+			ss       []*Swarm
+		)
 
-		// Shutdown peer exchange.
 		for _, s := range n.ss {
-			s.shutdown()
+			ss = append(ss, s)
 		}
 
 		// Close all connections.
 		for _, c := range n.pendConns {
-			c.Close()
+			c.shutdown(ErrClosed)
 		}
-		for _, c := range n.pkToConn {
-			c.Close()
+		for _, c := range n.addrToConn {
+			c.shutdown(nil)
+		}
+		n.mx.Unlock()
+
+		// Shutdown peer exchange.
+		for _, s := range ss {
+			s.shutdown()
 		}
 
 		// Shutdown all transports.
-		if n.tcp != nil {
-			n.tcp.Close()
+		if tcp != nil {
+			tcp.Close()
 		}
-		if n.udp != nil {
-			n.udp.Close()
+		if udp != nil {
+			udp.Close()
 		}
 		if n.rpc != nil {
 			n.rpc.Close()
 		}
 
+		n.await.Wait()
+
+		// Terminate all fillings.
+		n.fs.close()
+
 		// Close database.
 		err = n.c.Close()
 
-		n.await.Wait()
-
 	})
 
 	return
diff --git a/node/transports.go b/node/transports.go
index 8bec75a..149d1ea 100644
--- a/node/transports.go
+++ b/node/transports.go
@@ -54,6 +54,15 @@ func (t *TCP) addConn(c *Conn) {
 	t.cs[c.Address()] = c
 }
 
+func (t *TCP) delConn(c *Conn) {
+	t.mx.Lock()
+	defer t.mx.Unlock()
+
+	if t.cs[c.Address()] == c {
+		delete(t.cs, c.Address())
+	}
+}
+
 func (t *TCP) getConn(address string) (c *Conn) {
 	t.mx.Lock()
 	defer t.mx.Unlock()
@@ -101,7 +110,10 @@ func (t *TCP) Connect(address string) (*Conn, error) {
 	// Check if connections to/from address already exists.
 	c := t.getConn(address)
 	if c != nil {
-		return c, nil
+		if !c.isClosed() {
+			return c, nil
+		}
+		<-c.doneq // it's being removed
 	}
 
 	// Open new factory.Connection.
@@ -113,9 +125,7 @@ func (t *TCP) Connect(address string) (*Conn, error) {
 	// Init outgoing connection (handhshake, check duplicate pubkey, etc.)
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if c, err = t.n.initConn(fc, false); err == nil {
-		t.addConn(c)
-	} else {
+	if c, err = t.n.initConn(fc, false); err != nil {
 		t.n.Errorf(err, "[%s] failed to connect", factoryConnStr(fc, false))
 		if !fc.IsClosed() {
 			t.n.Debugf(CloseConnPin, "[%s] closing factory.Connection",
@@ -136,19 +146,16 @@ func (t *TCP) acceptConn(fc *factory.Connection) {
 		addr = fc.GetRemoteAddr().String()
 		err  error
 	)
-	c := t.getConn(addr)
-	if c != nil {
+	if t.getConn(addr) != nil {
 		err = errors.New("already have incoming connection from the address")
 	} else {
 		// Init incoming connection (handhshake, check duplicate pubkey, etc.)
-		c, err = t.n.initConn(fc, true)
+		_, err = t.n.initConn(fc, true)
 	}
 
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if err == nil {
-		t.addConn(c)
-	} else {
+	if err != nil {
 		t.n.Errorf(err, "[%s] failed to accept", factoryConnStr(fc, true))
 		if !fc.IsClosed() {
 			t.n.Debugf(CloseConnPin, "[%s] closing factory.Connection",
@@ -158,25 +165,6 @@ func (t *TCP) acceptConn(fc *factory.Connection) {
 	}
 }
 
-// closeConn closes factory.Connection, underlying Conn and removes it from cache
-func (t *TCP) closeConn(addr string) error {
-	t.mx.Lock()
-	defer t.mx.Unlock()
-
-	if c, ok := t.cs[addr]; ok {
-		if !c.Connection.IsClosed() {
-			t.n.Debugf(CloseConnPin, "[%s] closing factory.Connection", c.String())
-			c.Connection.Close()
-		}
-	} else {
-		return errors.New("not found")
-	}
-
-	delete(t.cs, addr)
-
-	return nil
-}
-
 // Discovery returns underlying MessengerFactory that
 // can be nil, if feature disabled
 func (t *TCP) Discovery() (d *discovery.MessengerFactory) {
@@ -395,7 +383,9 @@ func (u *UDP) delConn(c *Conn) {
 	u.mx.Lock()
 	defer u.mx.Unlock()
 
-	delete(u.cs, c.Address())
+	if u.cs[c.Address()] == c {
+		delete(u.cs, c.Address())
+	}
 }
 
 func (u *UDP) getConn(address string) (c *Conn) {
@@ -444,7 +434,10 @@ func (u *UDP) Connect(address string) (*Conn, error) {
 	// Check if connections to/from address already exists.
 	c := u.getConn(address)
 	if c != nil {
-		return c, nil
+		if !c.isClosed() {
+			return c, nil
+		}
+		<-c.doneq // it's being removed
 	}
 
 	// Open new factory.Connection.
@@ -456,9 +449,7 @@ func (u *UDP) Connect(address string) (*Conn, error) {
 	// Init outgoing connection (handhshake, check duplicate pubkey, etc.)
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if c, err = u.n.initConn(fc, false); err == nil {
-		u.addConn(c)
-	} else {
+	if c, err = u.n.initConn(fc, false); err != nil {
 		u.n.Errorf(err, "[%s] failed to connect", factoryConnStr(fc, false))
 		if !fc.IsClosed() {
 			u.n.Debugf(CloseConnPin, "[%] closing factory.Connection",
@@ -479,19 +470,16 @@ func (u *UDP) acceptConn(fc *factory.Connection) {
 		addr = fc.GetRemoteAddr().String()
 		err  error
 	)
-	c := u.getConn(addr)
-	if c != nil {
+	if u.getConn(addr) != nil {
 		err = errors.New("already have incoming connection from the address")
 	} else {
 		// Init incoming connection (handhshake, check duplicate pubkey, etc.)
-		c, err = u.n.initConn(fc, true)
+		_, err = u.n.initConn(fc, true)
 	}
 
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if err == nil {
-		u.addConn(c)
-	} else {
+	if err != nil {
 		u.n.Errorf(err, "[%s] failed to accept", factoryConnStr(fc, true))
 		if !fc.IsClosed() {
 			u.n.Debugf(CloseConnPin, "[%s] closing factory.Connection",
@@ -501,25 +489,6 @@ func (u *UDP) acceptConn(fc *factory.Connection) {
 	}
 }
 
-// closeConn closes factory.Connection, underlying Conn, and removes it from cache
-func (u *UDP) closeConn(addr string) error {
-	u.mx.Lock()
-	defer u.mx.Unlock()
-
-	if c, ok := u.cs[addr]; ok {
-		if !c.Connection.IsClosed() {
-			u.n.Debugf(CloseConnPin, "[%s] closing factory.Connection", c.String())
-			c.Connection.Close()
-		}
-	} else {
-		return errors.New("not found")
-	}
-
-	delete(u.cs, addr)
-
-	return nil
-}
-
 // Discovery returns underlying MessengerFactory that
 // can be nil, if feature disabled
 func (u *UDP) Discovery() (d *discovery.MessengerFactory) {
-- 
2.43.0


From 7e6fddc5a1d6f361d196aa6d8351d51631d758cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:13 +0000
Subject: [PATCH 55/83] fix: lists of connections of a feed contain closed or
 not subscribed connections, Root pushed after subscription is lost

---
 node/conn.go   | 92 ++++++++++++++++++++++++++++++++++++++++----------
 node/errors.go |  1 +
 node/feeds.go  | 79 +++++++++++++++++++++++++++++++++----------
 node/node.go   |  2 ++
 4 files changed, 139 insertions(+), 35 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 5c9a9f5..1b1641f 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -53,7 +53,12 @@ type Conn struct {
 
 	// request - response
 	seq  uint32                    // messege seq number (for request-response)
-	reqs map[uint32]chan<- msg.Msg // requests
+	reqs map[uint32]request // requests
+}
+
+type request struct {
+	rq   chan<- msg.Msg      // for the reply
+	hook func(reply msg.Msg) // can be nil
 }
 
 func (n *Node) newConnection(
@@ -76,7 +81,7 @@ func (n *Node) newConnection(
 		outq:   make(chan struct{}, 1),
 		outsem: make(chan struct{}, maxOutMsgs),
 
-		reqs: make(map[uint32]chan<- msg.Msg),
+		reqs: make(map[uint32]request),
 	}
 
 	return c
@@ -138,6 +143,7 @@ func (c *Conn) terminate() {
 	<-c.closeq
 	c.await.Wait()
 
+	c.n.fs.delConn(c)
 	c.n.removeConn(c)
 	c.Connection.Close()
 
@@ -308,14 +314,36 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 
 	var reply msg.Msg
 
-	if reply, err = c.sendRequest(&msg.Sub{Feed: feed}); err != nil {
+	// The peer sends last Root just after the Ok, thus the feed should be
+	// added before the next message is handled.
+	var (
+		added bool
+		onOk  = func(reply msg.Msg) {
+			if _, ok := reply.(*msg.Ok); ok == true {
+				if added = c.n.fs.addConnFeed(c, feed, 0); added == false {
+					c.unsubscribe(feed) // DontShare called meanwhile
+				}
+			}
+		}
+	)
+
+	if reply, err = c.request(&msg.Sub{Feed: feed}, onOk); err != nil {
+		if err == ErrTimeout && c.n.fs.hasConnFeed(c, feed) == false {
+			c.unsubscribe(feed) // the peer can accept it later
+		}
 		return
 	}
 
 	switch x := reply.(type) {
 
 	case *msg.Ok:
-	// success
+
+		if added == false {
+			if c.isClosed() == true {
+				return ErrClosed
+			}
+			return ErrNotShared
+		}
 
 	case *msg.Err:
 		err = errors.New(x.Err)
@@ -329,7 +357,6 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 		return
 	}
 
-	c.n.fs.addConnFeed(c, feed)
 	c.sendLastRoot(feed)
 	return
 }
@@ -503,6 +530,13 @@ func (c *Conn) pushMsg(m msg.Msg) {
 	c.addOutMsg(outMsg{c.nextSeq(), 0, m, true})
 }
 
+// pushReply is pushMsg for a reply
+func (c *Conn) pushReply(rseq uint32, m msg.Msg) {
+	c.n.Debugf(MsgSendPin, "[%s] push %d %T", c.String(), rseq, m)
+
+	c.addOutMsg(outMsg{c.nextSeq(), rseq, m, true})
+}
+
 func (c *Conn) addOutMsg(om outMsg) {
 	c.outmx.Lock()
 	defer c.outmx.Unlock()
@@ -607,8 +641,11 @@ func (c *Conn) receiveMsg() error {
 			c.n.Debugf(MsgReceivePin, "[%s] receive %T", c.String(), msg)
 
 			// Handle message.
-			if rq, ok := c.isResponse(rseq); ok == true {
-				rq <- msg
+			if r, ok := c.isResponse(rseq); ok == true {
+				if r.hook != nil {
+					r.hook(msg)
+				}
+				r.rq <- msg
 				continue
 			}
 			if err := c.handle(seq, msg); err != nil {
@@ -621,19 +658,21 @@ func (c *Conn) receiveMsg() error {
 	}
 }
 
-func (c *Conn) isResponse(rseq uint32) (rq chan<- msg.Msg, ok bool) {
+// a request has one response only, others are delayed messages
+func (c *Conn) isResponse(rseq uint32) (r request, ok bool) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
-	rq, ok = c.reqs[rseq]
+	r, ok = c.reqs[rseq]
+	delete(c.reqs, rseq)
 	return
 }
 
-func (c *Conn) addRequest(seq uint32, rq chan<- msg.Msg) {
+func (c *Conn) addRequest(seq uint32, r request) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
-	c.reqs[seq] = rq
+	c.reqs[seq] = r
 }
 
 func (c *Conn) delRequest(seq uint32) {
@@ -653,6 +692,18 @@ func (c *Conn) responseTimeout() (rt time.Duration) {
 }
 
 func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
+	return c.request(m, nil)
+}
+
+// The hook is called with the reply by goroutine that
+// receives messages, before it handles next message
+func (c *Conn) request(
+	m msg.Msg,
+	hook func(reply msg.Msg),
+) (
+	reply msg.Msg,
+	err error,
+) {
 
 	c.n.Debugf(MsgSendPin, "[%s] sendRequest %T", c.String(), m)
 
@@ -673,7 +724,7 @@ func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
 		seq = c.nextSeq()
 	)
 
-	c.addRequest(seq, rq)
+	c.addRequest(seq, request{rq, hook})
 	defer c.delRequest(seq)
 
 	c.sendMsg(seq, 0, m)
@@ -777,9 +828,9 @@ func (c *Conn) handleSub(seq uint32, sub *msg.Sub) (_ error) {
 	}
 
 	// check first
-	if c.n.fs.hasConnFeed(c, sub.Feed) == true {
-		c.sendOk(seq) // already subscribed
-		return
+	if c.n.fs.hasConnFeed(c, sub.Feed) == true &&
+		c.n.fs.addConnFeed(c, sub.Feed, seq) == true {
+		return // already subscribed
 	}
 
 	// callback
@@ -802,8 +853,10 @@ func (c *Conn) handleSub(seq uint32, sub *msg.Sub) (_ error) {
 
 	// ok
 
-	c.n.fs.addConnFeed(c, sub.Feed)
-	c.sendOk(seq)
+	if c.n.fs.addConnFeed(c, sub.Feed, seq) == false {
+		c.sendErr(seq, errors.New("do not share the feed"))
+		return
+	}
 
 	c.sendLastRoot(sub.Feed) // and push last Root
 
@@ -820,7 +873,12 @@ func (c *Conn) handleUnsub(seq uint32, unsub *msg.Unsub) (err error) {
 		return errors.New("invalid request Unsub blank feed") // fatal
 	}
 
+	if c.n.fs.hasConnFeed(c, unsub.Feed) == false {
+		return // not subscribed
+	}
+
 	c.n.fs.delConnFeed(c, unsub.Feed) // delete
+	c.n.onUnsubscribeRemote(c, unsub.Feed)
 	return
 }
 
diff --git a/node/errors.go b/node/errors.go
index 2bf6562..580723d 100644
--- a/node/errors.go
+++ b/node/errors.go
@@ -16,6 +16,7 @@ var (
 	ErrMaxHeadsLimit           = errors.New("max heads limit")
 	ErrUnsubscribe             = errors.New("unsubscribe")
 	ErrBlankFeed               = errors.New("blank feed")
+	ErrNotShared               = errors.New("the Node doesn't share the feed")
 	ErrConnLimit               = errors.New("max nubmber of connections exceeded")
 	ErrPendConnLimit           = errors.New("max number of pending connections exceeded")
 )
diff --git a/node/feeds.go b/node/feeds.go
index c1b2db9..ce35c5a 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -25,6 +25,8 @@ type broRoot struct {
 type connFeed struct {
 	c *Conn
 	f cipher.PubKey
+
+	ok uint32 // seq of the subscription request to reply, or zero
 }
 
 // feeds of the Node
@@ -40,6 +42,7 @@ type nodeFeeds struct {
 	delq chan cipher.PubKey // del feed
 
 	addcfq chan connFeed // add connection to a feed
+	addcfb chan bool     // add connection to a feed boolean reply
 	delcfq chan connFeed // del connection from a feed
 
 	delcq chan *Conn // delete connection (closed connection and similar)
@@ -94,6 +97,7 @@ func newNodeFeeds(node *Node) (n *nodeFeeds) {
 	n.delq = make(chan cipher.PubKey) // del feed
 
 	n.addcfq = make(chan connFeed) // add connection to a feed
+	n.addcfb = make(chan bool)
 	n.delcfq = make(chan connFeed) // del connection from a feed
 
 	n.delcq = make(chan *Conn)
@@ -300,47 +304,80 @@ func (n *nodeFeeds) handleDelFeed(pk cipher.PubKey) {
 	delete(n.fs, pk)
 	n.fl = nil
 
+	for c := range nf.cs {
+		n.addIdle(c)
+	}
+
 }
 
-// (api)
-func (n *nodeFeeds) addConnFeed(c *Conn, pk cipher.PubKey) {
+// (api) it returns false if the connection is closed or if the Node doesn't
+// share the feed; if the ok is not zero, then the peer receives reply Ok,
+// and it never receives the Ok after Unsub, sent because of DontShare
+func (n *nodeFeeds) addConnFeed(
+	c *Conn,
+	pk cipher.PubKey,
+	ok uint32,
+) (
+	added bool,
+) {
+
+	select {
+	case n.addcfq <- connFeed{c, pk, ok}:
+	case <-n.closeq:
+		return
+	}
 
 	select {
-	case n.addcfq <- connFeed{c, pk}:
+	case added = <-n.addcfb:
 	case <-n.closeq:
 	}
 
+	return
 }
 
 // (handler)
 func (n *nodeFeeds) handleAddConnFeed(cf connFeed) {
 
+	var added = n.addConnFeedReply(cf)
+
+	select {
+	case n.addcfb <- added:
+	case <-n.closeq:
+	}
+
+}
+
+// (handler)
+func (n *nodeFeeds) addConnFeedReply(cf connFeed) (added bool) {
+
 	n.n.Debugln(FeedPin, "handleAddConnFeed", cf.c.String(), cf.f.Hex()[:7])
 
 	// if the cf.f is blank the this connection is new
 
-	if cf.f == (cipher.PubKey{}) {
-		n.fs[cipher.PubKey{}].addConn(cf.c)
-		return
-	}
-
 	var nf, ok = n.fs[cf.f]
 
-	if ok == false {
-		nf = newNodeFeed(n, cf.f)
-		n.fs[cf.f] = nf
+	if ok == false || cf.c.isClosed() == true {
+		return // the Node doesn't share the feed, or the Conn is closed
 	}
 
 	nf.addConn(cf.c)
-	n.fs[cipher.PubKey{}].delConn(cf.c) // delete from idle
 
+	if cf.f != (cipher.PubKey{}) {
+		n.fs[cipher.PubKey{}].delConn(cf.c) // delete from idle
+	}
+
+	if cf.ok != 0 {
+		cf.c.pushReply(cf.ok, &msg.Ok{})
+	}
+
+	return true
 }
 
 // (api)
 func (n *nodeFeeds) delConnFeed(c *Conn, pk cipher.PubKey) {
 
 	select {
-	case n.delcfq <- connFeed{c, pk}:
+	case n.delcfq <- connFeed{c: c, f: pk}:
 	case <-n.closeq:
 	}
 
@@ -353,11 +390,17 @@ func (n *nodeFeeds) handleDelConnFeed(cf connFeed) {
 
 	var nf, ok = n.fs[cf.f]
 
-	if ok == false {
-		return // no such feed
+	if ok == false || nf.hasConn(cf.c) == false {
+		return // no such feed, or it doesn't have the connection
 	}
 
 	nf.delConn(cf.c)
+	n.addIdle(cf.c)
+
+}
+
+// (handler)
+func (n *nodeFeeds) addIdle(c *Conn) {
 
 	// if the connection does't share a feed, then
 	// we put it to idle
@@ -368,13 +411,13 @@ func (n *nodeFeeds) handleDelConnFeed(cf connFeed) {
 			continue // avoid map lookup
 		}
 
-		if nf.hasConn(cf.c) == true {
+		if nf.hasConn(c) == true {
 			return
 		}
 
 	}
 
-	n.fs[cipher.PubKey{}].addConn(cf.c) // add to idle
+	n.fs[cipher.PubKey{}].addConn(c) // add to idle
 
 }
 
@@ -592,7 +635,7 @@ func (n *nodeFeeds) handleConnectionsOfFeed(pk cipher.PubKey) {
 func (n *nodeFeeds) hasConnFeed(c *Conn, pk cipher.PubKey) (yep bool) {
 
 	select {
-	case n.hascfrq <- connFeed{c, pk}:
+	case n.hascfrq <- connFeed{c: c, f: pk}:
 	case <-n.closeq:
 		return
 	}
diff --git a/node/node.go b/node/node.go
index a4b10f3..6f213e4 100644
--- a/node/node.go
+++ b/node/node.go
@@ -521,6 +521,8 @@ func (n *Node) onConnInit(c *Conn) error {
 		n.udp.addConn(c)
 	}
 
+	n.fs.addConnFeed(c, cipher.PubKey{}, 0) // idle
+
 	n.await.Add(1)
 	go c.run()
 
-- 
2.43.0


From 4121b303271aa398185da3729f2bbe227ef19fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:30 +0000
Subject: [PATCH 56/83] fix: two connections with the same peer or with itself
 can be established, zero limits refuse everything

---
 node/errors.go    |   1 +
 node/handshake.go |  32 +++++++--------
 node/node.go      | 101 +++++++++++++++++++++++++++++++++++++++++-----
 3 files changed, 105 insertions(+), 29 deletions(-)

diff --git a/node/errors.go b/node/errors.go
index 580723d..66b72a7 100644
--- a/node/errors.go
+++ b/node/errors.go
@@ -11,6 +11,7 @@ var (
 	ErrClosed                  = errors.New("closed")
 	ErrNotPublic               = errors.New("not a public server")
 	ErrAlreadyHaveConnection   = errors.New("already have connection")
+	ErrConnectionToItself      = errors.New("connection to itself")
 	ErrInvalidResponse         = errors.New("invalid response")
 	ErrNoConnectionsToFillFrom = errors.New("no connections to fill from")
 	ErrMaxHeadsLimit           = errors.New("max heads limit")
diff --git a/node/handshake.go b/node/handshake.go
index 3327b1f..85c51b0 100644
--- a/node/handshake.go
+++ b/node/handshake.go
@@ -38,7 +38,7 @@ func (c *Conn) performHandshake() error {
 	// TODO: add special parameter for handshake timeout.
 	var (
 		rt time.Duration
-		tm *time.Timer
+		tc <-chan time.Time
 	)
 	if c.IsTCP() == true {
 		rt = c.n.config.TCP.ResponseTimeout
@@ -46,8 +46,9 @@ func (c *Conn) performHandshake() error {
 		rt = c.n.config.UDP.ResponseTimeout
 	}
 	if rt > 0 {
-		tm = time.NewTimer(rt)
+		tm := time.NewTimer(rt)
 		defer tm.Stop()
+		tc = tm.C
 	}
 
 	// Wait for response message with timeout.
@@ -69,10 +70,9 @@ func (c *Conn) performHandshake() error {
 		switch x := m.(type) {
 		case *msg.Ack:
 			// Check if node already has connection with peer.
-			if _, ok := c.n.hasPeer(x.NodeID); ok {
-				return ErrAlreadyHaveConnection
+			if err := c.n.claimPeer(c, x.NodeID); err != nil {
+				return err
 			}
-			c.peerID = x.NodeID
 
 		case *msg.Err:
 			return errors.New(x.Err)
@@ -81,7 +81,7 @@ func (c *Conn) performHandshake() error {
 			return fmt.Errorf("invalid response type: %T", m)
 		}
 
-	case <-tm.C:
+	case <-tc:
 		return ErrTimeout
 
 	case <-c.closeq:
@@ -98,7 +98,7 @@ func (c *Conn) acceptHandshake() (err error) {
 	// TODO: add special parameter for handshake timeout.
 	var (
 		rt time.Duration
-		tm *time.Timer
+		tc <-chan time.Time
 	)
 	if c.IsTCP() == true {
 		rt = c.n.config.TCP.ResponseTimeout
@@ -106,8 +106,9 @@ func (c *Conn) acceptHandshake() (err error) {
 		rt = c.n.config.UDP.ResponseTimeout
 	}
 	if rt > 0 {
-		tm = time.NewTimer(rt)
+		tm := time.NewTimer(rt)
 		defer tm.Stop()
+		tc = tm.C
 	}
 
 	// Wait for incoming message with timeout.
@@ -145,14 +146,10 @@ func (c *Conn) acceptHandshake() (err error) {
 		}
 
 		// Check if node already has connection with peer.
-		if _, ok := c.n.hasPeer(syn.NodeID); ok {
-			var (
-				err = ErrAlreadyHaveConnection
-
-				errMsg = &msg.Err{
-					Err: err.Error(),
-				}
-			)
+		if err := c.n.claimPeer(c, syn.NodeID); err != nil {
+			errMsg := &msg.Err{
+				Err: err.Error(),
+			}
 			if sendErr := c.sendRaw(c.encodeMsg(c.nextSeq(), seq, errMsg)); sendErr != nil {
 				c.n.Error(sendErr, "faield to send err message")
 			}
@@ -169,9 +166,8 @@ func (c *Conn) acceptHandshake() (err error) {
 		}
 
 		// Handshake is complete.
-		c.peerID = syn.NodeID
 
-	case <-tm.C:
+	case <-tc:
 		return ErrTimeout
 
 	case <-c.closeq:
diff --git a/node/node.go b/node/node.go
index 6f213e4..35fd06e 100644
--- a/node/node.go
+++ b/node/node.go
@@ -1,6 +1,7 @@
 package node
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"sync"
@@ -43,6 +44,7 @@ type Node struct {
 	pendConns  map[string]*Conn        // peer addr -> pending connection
 	addrToConn map[string]*Conn        // peer addr -> connection
 	pkToConn   map[cipher.PubKey]*Conn // peer pubkey (ID) -> connection
+	pkToPend   map[cipher.PubKey]*Conn // peer pubkey (ID) -> pending
 
 	ss map[cipher.PubKey]*Swarm // swarms
 
@@ -152,6 +154,7 @@ func NewNodeContainer(
 	n.pendConns = make(map[string]*Conn)
 	n.addrToConn = make(map[string]*Conn)
 	n.pkToConn = make(map[cipher.PubKey]*Conn)
+	n.pkToPend = make(map[cipher.PubKey]*Conn)
 
 	n.ss = make(map[cipher.PubKey]*Swarm)
 
@@ -363,10 +366,16 @@ func (n *Node) onDisconenct(c *Conn, reason error) {
 	}
 }
 
+const maxInt = int(^uint(0) >> 1)
+
 func (n *Node) connCap() int {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.config.MaxConnections <= 0 {
+		return maxInt // no limit
+	}
+
 	count := len(n.pendConns) + len(n.addrToConn)
 	if count >= n.config.MaxConnections {
 		return 0
@@ -379,6 +388,10 @@ func (n *Node) pendingConnCap() int {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.config.MaxPendingConnections <= 0 {
+		return maxInt // no limit
+	}
+
 	count := len(n.pendConns)
 	if count >= n.config.MaxPendingConnections {
 		return 0
@@ -460,27 +473,32 @@ func (n *Node) onNewConn(
 		return nil, false, false, ErrClosed
 	}
 
-	// Check limits for number of open connections.
-	if len(n.pendConns)+len(n.addrToConn) >= n.config.MaxConnections {
-		return nil, false, false, ErrConnLimit
-	}
-	if len(n.pendConns) >= n.config.MaxPendingConnections {
-		return nil, false, false, ErrPendConnLimit
-	}
-
 	addr := fc.GetRemoteAddr().String()
 
-	n.await.Add(1) // for the initConn
-
 	// Check if connection to/from address already exists.
 	if c, ok := n.addrToConn[addr]; ok {
+		n.await.Add(1) // for the initConn
 		return c, false, false, nil
 	}
 	if c, ok := n.pendConns[addr]; ok {
+		n.await.Add(1) // for the initConn
 		return c, false, true, nil
 	}
 
+	// Check limits for number of open connections, zero is no limit.
+	if max := n.config.MaxConnections; max > 0 &&
+		len(n.pendConns)+len(n.addrToConn) >= max {
+
+		return nil, false, false, ErrConnLimit
+	}
+	if max := n.config.MaxPendingConnections; max > 0 &&
+		len(n.pendConns) >= max {
+
+		return nil, false, false, ErrPendConnLimit
+	}
+
 	// Create new pending connection.
+	n.await.Add(1) // for the initConn
 	c = n.newConnection(fc, isIncoming)
 	n.pendConns[addr] = c
 
@@ -495,8 +513,68 @@ func (n *Node) onConnInitErr(c *Conn, initErr error) {
 
 	delete(n.pendConns, c.Address())
 
+	if n.pkToPend[c.peerID] == c {
+		delete(n.pkToPend, c.peerID)
+	}
+
 	c.initErr = initErr
 	close(c.initq)
+
+	c.shutdown(initErr)
+	close(c.doneq)
+}
+
+// claimPeer used by the handshake, it refuses to connect a peer the Node
+// is already connected with. If two nodes connect to each other at the same
+// time, then both choose the connection created by the Node with greater ID.
+func (n *Node) claimPeer(c *Conn, id cipher.PubKey) error {
+
+	if id == n.idpk {
+		return ErrConnectionToItself
+	}
+
+	for {
+
+		x := n.tryClaimPeer(c, id)
+		if x == nil {
+			return nil
+		}
+
+		if !x.isClosed() {
+			if c.incoming || !x.incoming ||
+				bytes.Compare(n.idpk[:], id[:]) < 0 {
+
+				return ErrAlreadyHaveConnection
+			}
+			x.shutdown(ErrAlreadyHaveConnection)
+		}
+
+		// it's being removed
+		select {
+		case <-x.doneq:
+		case <-c.closeq:
+			return ErrClosed
+		}
+
+	}
+}
+
+// tryClaimPeer returns connection that already have the peer
+func (n *Node) tryClaimPeer(c *Conn, id cipher.PubKey) *Conn {
+	n.mx.Lock()
+	defer n.mx.Unlock()
+
+	if x, ok := n.pkToConn[id]; ok {
+		return x
+	}
+	if x, ok := n.pkToPend[id]; ok {
+		return x
+	}
+
+	c.peerID = id
+	n.pkToPend[id] = c
+
+	return nil
 }
 
 // onConnInit atomically moves pending connection to cache
@@ -506,11 +584,12 @@ func (n *Node) onConnInit(c *Conn) error {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
-	if n.closed == true {
+	if n.closed == true || c.isClosed() == true {
 		return ErrClosed
 	}
 
 	delete(n.pendConns, c.Address())
+	delete(n.pkToPend, c.peerID)
 
 	n.addrToConn[c.Address()] = c
 	n.pkToConn[c.peerID] = c
-- 
2.43.0


From abeca409b72f836f4c4d3271a1b048c8066fd2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:16 +0000
Subject: [PATCH 57/83] fix: a Root can be lost, filled again, reported in
 wrong order or block its head

---
 node/conn.go   |  16 +++++-
 node/errors.go |   2 +
 node/feed.go   |   9 +--
 node/head.go   | 153 ++++++++++++++++++++++++++++++++-----------------
 node/node.go   |   3 +
 5 files changed, 122 insertions(+), 61 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 1b1641f..5cee99e 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -975,7 +975,7 @@ func (c *Conn) handleRqObject(seq uint32, rq *msg.RqObject) {
 	select {
 	case obj := <-gc:
 		// got
-		c.sendMsg(c.nextSeq(), seq, &msg.Object{Value: obj.Val})
+		c.sendObject(seq, obj)
 		return
 	default:
 		// wait
@@ -990,9 +990,9 @@ func (c *Conn) handleRqObject(seq uint32, rq *msg.RqObject) {
 
 	select {
 	case obj := <-gc:
-		c.sendMsg(c.nextSeq(), seq, &msg.Object{Value: obj.Val})
+		c.sendObject(seq, obj)
 	case <-tc:
-		c.sendMsg(c.nextSeq(), seq, &msg.Err{}) // timeout
+		c.sendErr(seq, ErrTimeout)
 	case <-c.closeq:
 		// closed
 	}
@@ -1000,6 +1000,16 @@ func (c *Conn) handleRqObject(seq uint32, rq *msg.RqObject) {
 	return
 }
 
+func (c *Conn) sendObject(rseq uint32, obj skyobject.Object) {
+
+	if obj.Err != nil {
+		c.sendErr(rseq, obj.Err)
+		return
+	}
+
+	c.sendMsg(c.nextSeq(), rseq, &msg.Object{Value: obj.Val})
+}
+
 func (c *Conn) handleRqPreview(seq uint32, rqp *msg.RqPreview) (_ error) {
 
 	c.n.Debugf(MsgReceivePin, "[%s] handleRqPreview %s", c.String(),
diff --git a/node/errors.go b/node/errors.go
index 66b72a7..6fcc661 100644
--- a/node/errors.go
+++ b/node/errors.go
@@ -20,4 +20,6 @@ var (
 	ErrNotShared               = errors.New("the Node doesn't share the feed")
 	ErrConnLimit               = errors.New("max nubmber of connections exceeded")
 	ErrPendConnLimit           = errors.New("max number of pending connections exceeded")
+
+	errNoObject = errors.New("the peer can't send the object") // internal
 )
diff --git a/node/feed.go b/node/feed.go
index 9f8ff21..dd944d4 100644
--- a/node/feed.go
+++ b/node/feed.go
@@ -61,14 +61,14 @@ func (n *nodeFeed) receivedRoot(cr connRoot) {
 	if ok == false {
 
 		// max heads limit
-		if mh := n.node().config.MaxHeads; mh > 0 && len(n.ho) == mh {
+		if mh := n.node().config.MaxHeads; mh > 0 && len(n.ho) >= mh {
 
 			// TODO (kostyarin): container/list or own doubly linked list ?
 
 			// max heads
-			var torm = n.ho[0]             // to remove
-			copy(n.ho, n.ho[1:])           // shift all
-			n.ho[len(n.ho)-1] = cr.r.Nonce // push
+			var torm = n.ho[0]   // to remove
+			copy(n.ho, n.ho[1:]) // shift all
+			n.ho = n.ho[:len(n.ho)-1]
 
 			n.hs[torm].closeByError(ErrMaxHeadsLimit)
 
@@ -78,6 +78,7 @@ func (n *nodeFeed) receivedRoot(cr connRoot) {
 
 		nh = newNodeHead(n)
 		n.hs[cr.r.Nonce] = nh
+		n.ho = append(n.ho, cr.r.Nonce)
 	}
 
 	nh.receivedRoot(cr)
diff --git a/node/head.go b/node/head.go
index d9fbbb7..1285981 100644
--- a/node/head.go
+++ b/node/head.go
@@ -115,8 +115,15 @@ func (n *nodeHead) node() *Node {
 	return n.n.fs.n
 }
 
+type succeededRequest struct {
+	c   *Conn             // connection
+	fil *skyobject.Filler // filler of the request
+}
+
 type failedRequest struct {
-	c   *Conn         // connection
+	c   *Conn             // connection
+	fil *skyobject.Filler // filler of the request
+
 	seq uint64        // seq of the filling Root
 	key cipher.SHA256 // requested object
 	err error         // failed if the err is not nil
@@ -141,8 +148,8 @@ type fillHead struct {
 
 	cs knownRoots // conn -> known root objects (seq)
 
-	successq chan *Conn         // succeeded requests
-	failureq chan failedRequest // failed requests
+	successq chan succeededRequest // succeeded requests
+	failureq chan failedRequest    // failed requests
 
 	rqo *list.List // request objects (cipher.SHA256)
 	fc  *list.List // connections to fill from (*Conn)
@@ -161,18 +168,15 @@ func (n *nodeHead) handle() {
 
 		f = fillHead{
 			nodeHead: n,
-			rq:       make(chan cipher.SHA256, 10),
 			cs:       make(knownRoots),
 			favg:     n.node().fillavg, // reference
 
-			ff: make(chan error), // filling error or nil (success)
-
-			successq: make(chan *Conn),         // release connection
-			failureq: make(chan failedRequest), // failed requests
+			successq: make(chan succeededRequest), // release connection
+			failureq: make(chan failedRequest),    // failed requests
 		}
 
 		key cipher.SHA256
-		c   *Conn
+		sc  succeededRequest
 		fc  failedRequest
 		err error // fillign failure or nil
 	)
@@ -183,9 +187,9 @@ func (n *nodeHead) handle() {
 
 			f.handleRequest(key)
 
-		case c = <-f.successq:
+		case sc = <-f.successq:
 
-			f.handleSuccess(c)
+			f.handleSuccess(sc)
 
 		case fc = <-f.failureq:
 
@@ -203,10 +207,12 @@ func (n *nodeHead) handle() {
 					f.p = connRoot{} // remove pending Root
 					if f.f != nil {
 						f.f.Close()
-						f.handleFillingResult(he.err)
+						if err = <-f.ff; err != nil {
+							err = he.err
+						}
+						f.handleFillingResult(err)
 					}
 					n.close()
-					f.terminate()
 					return
 				case he.c != nil: // delete connection
 					f.handleDelConn(he.c)
@@ -243,11 +249,15 @@ func (f *fillHead) handleRequest(key cipher.SHA256) {
 	f.triggerRequest()
 }
 
-func (f *fillHead) handleSuccess(c *Conn) {
-	f.node().Debugln(FillPin, "[fill] handleSuccess", c.String())
+func (f *fillHead) handleSuccess(sr succeededRequest) {
+	f.node().Debugln(FillPin, "[fill] handleSuccess", sr.c.String())
+
+	if sr.fil != f.f {
+		return // request of a previous filling
+	}
 
 	f.requesting--
-	f.fc.PushBack(c) // push
+	f.fc.PushBack(sr.c) // push
 	f.triggerRequest()
 }
 
@@ -255,8 +265,6 @@ func (f *fillHead) handleRequestFailure(fr failedRequest) {
 	f.node().Debugln(FillPin, "[fill] handleRequestFailure", fr.c.String(),
 		fr.key.Hex()[:7])
 
-	f.requesting--
-
 	switch fr.err {
 	case ErrInvalidResponse:
 
@@ -270,7 +278,7 @@ func (f *fillHead) handleRequestFailure(fr failedRequest) {
 		// closed
 		delete(f.cs, fr.c) // remove connection
 
-	case ErrTimeout:
+	case ErrTimeout, errNoObject:
 
 		// probably don't have object we're requesting anymore
 		f.cs.removeKnown(fr.c, fr.seq)
@@ -281,6 +289,11 @@ func (f *fillHead) handleRequestFailure(fr failedRequest) {
 
 	}
 
+	if fr.fil != f.f {
+		return // request of a previous filling
+	}
+
+	f.requesting--
 	f.rqo.PushFront(fr.key) // shift
 	f.triggerRequest()
 
@@ -290,6 +303,14 @@ func (f *fillHead) handleReceivedRoot(cr connRoot) {
 	f.node().Debugln(FillPin, "[fill] handleReceivedRoot",
 		cr.c.String(), cr.r.Short())
 
+	// the Root or a newer one can be filled meanwhile
+
+	if last, err := f.node().c.LastRootSeq(cr.r.Pub, cr.r.Nonce); err == nil &&
+		last >= cr.r.Seq {
+
+		return
+	}
+
 	// there are a filling Root
 
 	if f.r.r != nil {
@@ -298,11 +319,13 @@ func (f *fillHead) handleReceivedRoot(cr connRoot) {
 			return // ignore the old Root
 		}
 
-		f.cs.addKnown(cr.c, cr.r.Seq) // add to known
+		var added = f.cs.addKnown(cr.c, cr.r.Seq) // add to known
 
 		if cr.r.Seq == f.r.r.Seq {
-			f.fc.PushBack(cr.c) // add to filling connections
-			f.triggerRequest()
+			if added == true {
+				f.fc.PushBack(cr.c) // add to filling connections
+				f.triggerRequest()
+			}
 			return
 		}
 
@@ -357,8 +380,7 @@ func (f *fillHead) maxParallel() (mp int) {
 }
 
 func (f *fillHead) createFiller(cr connRoot) {
-	f.node().Debugln(FillPin, "[fill] createFiller", cr.c.String(),
-		cr.r.Short())
+	f.node().Debugln(FillPin, "[fill] createFiller", cr.r.Short())
 
 	// broadcast the Root we are going to fill
 	f.nodeHead.n.fs.broadcastRoot(cr)
@@ -377,19 +399,17 @@ func (f *fillHead) createFiller(cr connRoot) {
 	f.rqo = list.New()                   // create list of keys
 	f.fc = f.cs.buildConnsList(cr.r.Seq) // create list of connections
 
+	f.ff = make(chan error, 1)
+
 	f.await.Add(1)
-	go f.runFiller(f.f)
+	go f.runFiller(f.f, f.ff)
 }
 
 // (async)
-func (f *fillHead) runFiller(fill *skyobject.Filler) {
+func (f *fillHead) runFiller(fill *skyobject.Filler, ff chan<- error) {
 	defer f.await.Done()
 
-	select {
-	case f.ff <- fill.Run():
-	case <-f.closeq:
-		fill.Close() // since, the result ignored
-	}
+	ff <- fill.Run() // never blocks
 }
 
 func (f *fillHead) closeFiller() {
@@ -404,6 +424,7 @@ func (f *fillHead) closeFiller() {
 
 	f.f.Close()
 
+	f.f, f.ff, f.ft, f.tc = nil, nil, nil, nil
 	f.rqo, f.fc, f.rq = nil, nil, nil
 
 	f.r = connRoot{}
@@ -416,6 +437,10 @@ func (f *fillHead) handleFillingResult(err error) {
 	f.node().Debugf(FillPin, "handleFillingResult %s: %v", f.r.r.Short(), err)
 
 	if err == nil {
+		// for peers, that was not able to fill the Root from this Node, or
+		// was subscribed after the filling was started
+		f.nodeHead.n.fs.broadcastRoot(connRoot{nil, f.r.r})
+
 		f.node().onRootFilled(f.r.r)     // callback
 		f.favg.Add(time.Now().Sub(f.tp)) // average time
 		f.cs.moveForward(f.r.r.Seq + 1)  // move forward
@@ -435,9 +460,11 @@ func (f *fillHead) handleFillingResult(err error) {
 
 	// yes
 
-	f.createFiller(f.p)
+	var p = f.p
 	f.p = connRoot{}
 
+	f.createFiller(p)
+
 }
 
 func (f *fillHead) triggerRequest() {
@@ -485,7 +512,7 @@ func (f *fillHead) tryRequest() (fatal bool) {
 	f.requesting++
 
 	f.await.Add(1) // nodeHead.await
-	go f.request(c, f.r.r.Seq, key)
+	go f.request(c, f.f, f.r.r.Seq, key)
 
 	return
 }
@@ -496,7 +523,12 @@ func (f *fillHead) node() *Node {
 }
 
 // (async) request object
-func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
+func (f *fillHead) request(
+	c *Conn,
+	fil *skyobject.Filler,
+	seq uint64,
+	key cipher.SHA256,
+) {
 	defer f.await.Done()
 
 	f.node().Debugf(FillPin, "[fill] request from [%s] %d %s", c.String(), seq,
@@ -505,7 +537,7 @@ func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
 	var reply, err = c.sendRequest(&msg.RqObject{Key: key})
 
 	if err != nil {
-		f.requestFailed(failedRequest{c, seq, key, err})
+		f.requestFailed(failedRequest{c, fil, seq, key, err})
 		return
 	}
 
@@ -514,23 +546,30 @@ func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
 		var rk = cipher.SumSHA256(x.Value)
 
 		if rk != key {
-			f.requestFailed(failedRequest{c, seq, key, ErrInvalidResponse})
+			f.requestFailed(
+				failedRequest{c, fil, seq, key, ErrInvalidResponse})
 			return
 		}
 
 		// incremented by the Want call(s)
 		if _, err := f.node().c.SetWanted(key, x.Value); err != nil {
-			f.node().Fatal("DB failure:", err)
-			return
+			if _, ok := err.(*skyobject.ObjectIsTooLargeError); ok == false {
+				f.node().Fatal("DB failure:", err)
+				return
+			}
+			// the Filler has received the error already
 		}
 
 		select {
-		case f.successq <- c:
+		case f.successq <- succeededRequest{c, fil}:
 		case <-f.closeq:
 		}
 
+	case *msg.Err:
+		f.requestFailed(failedRequest{c, fil, seq, key, errNoObject})
+
 	default:
-		f.requestFailed(failedRequest{c, seq, key, ErrInvalidResponse})
+		f.requestFailed(failedRequest{c, fil, seq, key, ErrInvalidResponse})
 	}
 
 }
@@ -556,18 +595,29 @@ func (f *fillHead) handleDelConn(c *Conn) {
 }
 
 func (f *fillHead) terminate() {
+
+	if f.f == nil {
+		return
+	}
+
+	f.f.Close()
+
+	if err := <-f.ff; err == nil {
+		f.node().onRootFilled(f.r.r) // it's already filled
+	}
+
 	f.closeFiller()
 }
 
 type knownRoots map[*Conn][]uint64
 
-func (k knownRoots) addKnown(c *Conn, seq uint64) {
+func (k knownRoots) addKnown(c *Conn, seq uint64) (added bool) {
 
 	var known, ok = k[c]
 
 	if ok == false {
 		k[c] = []uint64{seq}
-		return
+		return true
 	}
 
 	for i, ks := range known {
@@ -581,7 +631,7 @@ func (k knownRoots) addKnown(c *Conn, seq uint64) {
 		if ks > seq {
 			known = append(known[:i], append([]uint64{seq}, known[i:]...)...)
 			k[c] = known
-			return
+			return true
 		}
 
 	}
@@ -590,6 +640,7 @@ func (k knownRoots) addKnown(c *Conn, seq uint64) {
 	known = append(known, seq)
 	k[c] = known
 
+	return true
 }
 
 // remove known Root object from a connection, from which
@@ -617,22 +668,16 @@ func (k knownRoots) removeKnown(c *Conn, seq uint64) {
 // Root objects of all peers
 func (k knownRoots) moveForward(seq uint64) {
 
-	var (
-		ks uint64
-		i  int
-	)
-
 	for c, known := range k {
 
-		for i, ks = range known {
-
-			if ks >= seq {
-				k[c] = append(known[:i], known[i+1:]...)
-				break
-			}
+		var i int // the known are sorted
 
+		for i < len(known) && known[i] < seq {
+			i++
 		}
 
+		k[c] = known[i:]
+
 	}
 
 }
diff --git a/node/node.go b/node/node.go
index 35fd06e..927963c 100644
--- a/node/node.go
+++ b/node/node.go
@@ -161,6 +161,9 @@ func NewNodeContainer(
 	n.config = conf
 	n.config.Config = c.Config() // actual
 
+	n.maxFillingParallel = conf.Config.MaxFillingParallel
+	n.rollAvgSamples = conf.Config.RollAvgSamples
+
 	n.fillavg = statutil.NewDuration(conf.Config.RollAvgSamples)
 
 	//
-- 
2.43.0


From 969dcdde1a4aad78235656a2ebf1532bdc43950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:09 +0000
Subject: [PATCH 58/83] fix: Preview accepts Root of another feed, request of
 peers closes connection

---
 node/conn.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 5cee99e..e2acf1f 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -405,6 +405,9 @@ func (c *Conn) Preview(
 	case *msg.Err:
 		return errors.New("error: " + x.Err)
 	case *msg.Root:
+		if x.Feed != feed {
+			return ErrInvalidResponse // Root of another feed
+		}
 		if r, err = c.n.c.PreviewRoot(x.Feed, x.Sig, x.Value); err != nil {
 			return
 		}
@@ -1034,8 +1037,8 @@ func (c *Conn) handleRqPeers(seq uint32, rqp *msg.RqPeers) error {
 
 	s, ok := c.n.InSwarm(rqp.Feed)
 	if !ok {
-		c.sendMsg(c.nextSeq(), seq, &msg.Err{Err: "not in swarm"})
-		return errors.New("node in not in swarm")
+		c.sendErr(seq, errors.New("not in swarm"))
+		return nil // keep the connection
 	}
 
 	peers := s.peersForExchange(c.PeerID())
-- 
2.43.0


From 9d336b034c965793837a50fb55150c7bb985ee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:56 +0000
Subject: [PATCH 59/83] fix: a Swarm never adds peers it receives, ignores
 peers without an address, blocks closing

---
 node/node.go  | 13 ++++++-----
 node/swarm.go | 61 +++++++++++++++++++++++----------------------------
 2 files changed, 36 insertions(+), 38 deletions(-)

diff --git a/node/node.go b/node/node.go
index 927963c..e88b5eb 100644
--- a/node/node.go
+++ b/node/node.go
@@ -857,6 +857,10 @@ func (n *Node) JoinSwarm(
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.closed == true {
+		return nil, ErrClosed
+	}
+
 	if s, ok := n.ss[feed]; ok {
 		return s, nil
 	}
@@ -872,16 +876,15 @@ func (n *Node) JoinSwarm(
 
 func (n *Node) LeaveSwarm(feed cipher.PubKey) error {
 	n.mx.Lock()
-	defer n.mx.Unlock()
-
 	s, ok := n.ss[feed]
+	delete(n.ss, feed)
+	n.mx.Unlock()
+
 	if !ok {
 		return errors.New("node is not in swarm")
 	}
 
-	s.shutdown()
-
-	delete(n.ss, feed)
+	s.shutdown() // the swarm uses the lock
 
 	return nil
 }
diff --git a/node/swarm.go b/node/swarm.go
index 37195f7..2f2f110 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -77,8 +77,9 @@ type Swarm struct {
 
 	node *Node
 
-	quit chan struct{}
-	done chan struct{}
+	quito sync.Once
+	quit  chan struct{}
+	done  chan struct{}
 
 	mu sync.RWMutex
 
@@ -138,7 +139,7 @@ func (s *Swarm) AddPeer(
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if uint64(len(s.peers)) >= s.cfg.MaxPeers {
+	if _, ok := s.peers[pk]; !ok && uint64(len(s.peers)) >= s.cfg.MaxPeers {
 		return fmt.Errorf("maximum number of peers exceeded")
 	}
 
@@ -181,29 +182,30 @@ func (s *Swarm) Peers() []Peer {
 
 func (s *Swarm) run() {
 	var (
-		requestPeers  = time.Tick(s.cfg.RequestPeerRate)
-		clearOldPeers = time.Tick(s.cfg.ClearOldPeersRate)
-		outgoingConn  = time.Tick(s.cfg.OutgoingConnRate)
+		requestPeers  = time.NewTicker(s.cfg.RequestPeerRate)
+		clearOldPeers = time.NewTicker(s.cfg.ClearOldPeersRate)
+		outgoingConn  = time.NewTicker(s.cfg.OutgoingConnRate)
 	)
 
+	defer requestPeers.Stop()
+	defer clearOldPeers.Stop()
+	defer outgoingConn.Stop()
+
 LOOP:
 	for {
 		select {
 		case <-s.quit:
 			break LOOP
-		default:
-		}
 
-		select {
-		case <-requestPeers:
+		case <-requestPeers.C:
 			if s.needPeers() {
 				s.requestPeers()
 			}
 
-		case <-clearOldPeers:
+		case <-clearOldPeers.C:
 			s.clearOldPeers()
 
-		case <-outgoingConn:
+		case <-outgoingConn.C:
 			if count, ok := s.needConns(); ok {
 				s.createOutgoingConns(count)
 			}
@@ -214,7 +216,7 @@ LOOP:
 }
 
 func (s *Swarm) shutdown() {
-	close(s.quit)
+	s.quito.Do(func() { close(s.quit) })
 	<-s.done
 }
 
@@ -251,6 +253,7 @@ func (s *Swarm) requestPeers() {
 				if m.Feed != s.feed {
 					err = errors.New("received peers for wrong feed")
 					// TODO: maybe call s.incPeerRetryTimes(c.PeerID())
+					break
 				}
 				s.addPeers(m.List)
 
@@ -288,12 +291,6 @@ func (s *Swarm) addPeers(peers []msg.PeerInfo) {
 	s.node.Debugf(PEXPin, "adding %d peers for feed %s",
 		len(peers), s.feed.Hex()[:8])
 
-	if s.cfg.MaxPeers > 0 && s.cfg.MaxPeers <= uint64(len(s.peers)) {
-		s.node.Debugf(PEXPin, "feed %s already have maximum number of peers",
-			s.feed.Hex()[:8])
-		return
-	}
-
 	// Validate peers
 	var validPeers []msg.PeerInfo
 	for _, pi := range peers {
@@ -309,23 +306,14 @@ func (s *Swarm) addPeers(peers []msg.PeerInfo) {
 	}
 	peers = validPeers
 
-	// Shuffle and cap peers
+	// Shuffle peers
 	mathrand.Shuffle(len(peers), func(i, j int) {
 		peers[i], peers[j] = peers[j], peers[i]
 	})
-	if s.cfg.MaxPeers > 0 {
-		rcap := s.cfg.MaxPeers - uint64(len(s.peers))
-		if uint64(len(peers)) > rcap {
-			s.node.Debugf(PEXPin, "capping number of peers to be added for feed %s to %d",
-				s.feed.Hex()[:8], rcap)
-			peers = peers[:rcap]
-		}
-	}
-
 	// Update existing peers or add new one
 	for _, pi := range peers {
 		p, ok := s.peers[pi.PubKey]
-		if !ok {
+		if ok {
 			s.node.Debugf(PEXPin, "updating last seen time of peer %s for feed %s",
 				pi.PubKey.Hex()[:8], s.feed.Hex()[:8])
 			p.seen()
@@ -337,10 +325,17 @@ func (s *Swarm) addPeers(peers []msg.PeerInfo) {
 				s.onPeerUpdated(p)
 			}
 		} else {
+			if s.cfg.MaxPeers > 0 && s.cfg.MaxPeers <= uint64(len(s.peers)) {
+				s.node.Debugf(PEXPin, "feed %s already have maximum number of peers",
+					s.feed.Hex()[:8])
+				continue
+			}
+
 			s.node.Debugf(PEXPin, "adding new peer %s for feed %s",
 				pi.PubKey.Hex()[:8], s.feed.Hex()[:8])
 
 			p = msgToPeer(pi)
+			p.seen()
 			s.onPeerAdded(p)
 		}
 
@@ -352,10 +347,10 @@ func (s *Swarm) isSelf(p msg.PeerInfo) (bool, string) {
 	if p.PubKey == s.node.ID() {
 		return true, "pubkey is same"
 	}
-	if p.TCPAddr == s.node.TCP().Address() {
+	if p.TCPAddr != "" && p.TCPAddr == s.node.TCP().Address() {
 		return true, "tcp address is same"
 	}
-	if p.UDPAddr == s.node.UDP().Address() {
+	if p.UDPAddr != "" && p.UDPAddr == s.node.UDP().Address() {
 		return true, "udp address is saem"
 	}
 
@@ -496,7 +491,7 @@ func (s *Swarm) resetPeerRetryTimes(pk cipher.PubKey) error {
 		return errPeerNotFound
 	}
 
-	p.RetryTimes--
+	p.RetryTimes = 0
 	s.peers[pk] = p
 
 	return nil
-- 
2.43.0


From 2559d2e2645f4660e6f67216c6c55e74b7aec13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:01 +0000
Subject: [PATCH 60/83] fix: RPC methods of UDP use TCP, RPC clients are served
 after closing of the Node

---
 node/rpc.go | 93 +++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 73 insertions(+), 20 deletions(-)

diff --git a/node/rpc.go b/node/rpc.go
index 9aadebb..9caea36 100644
--- a/node/rpc.go
+++ b/node/rpc.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"net"
 	"net/rpc"
+	"sync"
 
 	"github.com/skycoin/skycoin/src/cipher"
 
@@ -15,6 +16,10 @@ type rpcServer struct {
 	l net.Listener // underlying listener
 	r *rpc.Server  //
 	n *Node        // back reference
+
+	mx     sync.Mutex
+	cs     map[net.Conn]struct{} // clients
+	closed bool
 }
 
 // create RPC server
@@ -22,6 +27,7 @@ func (n *Node) newRPC() (r *rpcServer) {
 	r = new(rpcServer)
 	r.n = n
 	r.r = rpc.NewServer()
+	r.cs = make(map[net.Conn]struct{})
 	return
 }
 
@@ -46,7 +52,46 @@ func (r *rpcServer) Listen(address string) (err error) {
 
 func (r *rpcServer) run() {
 	defer r.n.await.Done()
-	r.r.Accept(r.l)
+
+	for {
+		var c, err = r.l.Accept()
+		if err != nil {
+			return // closed
+		}
+		if r.addClient(c) == false {
+			c.Close()
+			return
+		}
+		r.n.await.Add(1)
+		go r.serve(c)
+	}
+}
+
+func (r *rpcServer) serve(c net.Conn) {
+	defer r.n.await.Done()
+	defer r.delClient(c)
+
+	r.r.ServeConn(c) // it waits for all calls
+}
+
+func (r *rpcServer) addClient(c net.Conn) (ok bool) {
+	r.mx.Lock()
+	defer r.mx.Unlock()
+
+	if r.closed == true {
+		return
+	}
+
+	r.cs[c] = struct{}{}
+	return true
+}
+
+func (r *rpcServer) delClient(c net.Conn) {
+	r.mx.Lock()
+	defer r.mx.Unlock()
+
+	delete(r.cs, c)
+	c.Close()
 }
 
 func (r *rpcServer) Address() (address string) {
@@ -60,6 +105,14 @@ func (r *rpcServer) Close() (err error) {
 	if r.l != nil {
 		err = r.l.Close()
 	}
+
+	r.mx.Lock()
+	defer r.mx.Unlock()
+
+	r.closed = true
+	for c := range r.cs {
+		c.Close()
+	}
 	return
 }
 
@@ -188,7 +241,7 @@ func (t *TCPRPC) Subscribe(cf ConnFeed, _ *struct{}) (err error) {
 		}
 		return errors.New("no such connection")
 	}
-	return errors.New("to TCP transport")
+	return errors.New("no TCP transport")
 }
 
 // Unsubscribe is RPC method
@@ -200,7 +253,7 @@ func (t *TCPRPC) Unsubscribe(cf ConnFeed, _ *struct{}) (err error) {
 		}
 		return errors.New("no such connection")
 	}
-	return errors.New("to TCP transport")
+	return errors.New("no TCP transport")
 }
 
 // RemoteFeeds is RPC method
@@ -216,7 +269,7 @@ func (t *TCPRPC) RemoteFeeds(address string, rfs *[]cipher.PubKey) (err error) {
 		}
 		return errors.New("no such connection")
 	}
-	return errors.New("to TCP transport")
+	return errors.New("no TCP transport")
 }
 
 // Address is RPC method
@@ -225,7 +278,7 @@ func (t *TCPRPC) Address(_ struct{}, address *string) (_ error) {
 		*address = tcp.Address()
 		return
 	}
-	return errors.New("to TCP transport")
+	return errors.New("no TCP transport")
 }
 
 // A UDPRPC represents RPC object
@@ -236,14 +289,14 @@ type UDPRPC struct {
 
 // Connect is RPC method
 func (u *UDPRPC) Connect(address string, _ *struct{}) (err error) {
-	_, err = u.n.TCP().Connect(address)
+	_, err = u.n.UDP().Connect(address)
 	return
 }
 
 // Disconnect is RPC method
 func (u *UDPRPC) Disconnect(address string, _ *struct{}) (err error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		if c := tcp.getConn(address); c != nil {
+	if udp := u.n.getUDP(); udp != nil {
+		if c := udp.getConn(address); c != nil {
 			err = c.Close()
 		}
 	}
@@ -252,31 +305,31 @@ func (u *UDPRPC) Disconnect(address string, _ *struct{}) (err error) {
 
 // Subscribe is RPC method
 func (u *UDPRPC) Subscribe(cf ConnFeed, _ *struct{}) (err error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		if c := tcp.getConn(cf.Address); c != nil {
+	if udp := u.n.getUDP(); udp != nil {
+		if c := udp.getConn(cf.Address); c != nil {
 			return c.Subscribe(cf.Feed)
 		}
 		return errors.New("no such connection")
 	}
-	return errors.New("to UDP transport")
+	return errors.New("no UDP transport")
 }
 
 // Unsubscribe is RPC method
 func (u *UDPRPC) Unsubscribe(cf ConnFeed, _ *struct{}) (err error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		if c := tcp.getConn(cf.Address); c != nil {
+	if udp := u.n.getUDP(); udp != nil {
+		if c := udp.getConn(cf.Address); c != nil {
 			c.Unsubscribe(cf.Feed)
 			return
 		}
 		return errors.New("no such connection")
 	}
-	return errors.New("to UDP transport")
+	return errors.New("no UDP transport")
 }
 
 // RemoteFeeds is RPC method
 func (u *UDPRPC) RemoteFeeds(address string, rfs *[]cipher.PubKey) (err error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		if c := tcp.getConn(address); c != nil {
+	if udp := u.n.getUDP(); udp != nil {
+		if c := udp.getConn(address); c != nil {
 			var rf []cipher.PubKey
 			if rf, err = c.RemoteFeeds(); err != nil {
 				return
@@ -286,16 +339,16 @@ func (u *UDPRPC) RemoteFeeds(address string, rfs *[]cipher.PubKey) (err error) {
 		}
 		return errors.New("no such connection")
 	}
-	return errors.New("to UDP transport")
+	return errors.New("no UDP transport")
 }
 
 // Address is RPC method
 func (u *UDPRPC) Address(_ struct{}, address *string) (_ error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		*address = tcp.Address()
+	if udp := u.n.getUDP(); udp != nil {
+		*address = udp.Address()
 		return
 	}
-	return errors.New("to UDP transport")
+	return errors.New("no UDP transport")
 }
 
 // A RootRPC represents RPC object
-- 
2.43.0


From bcb047ab78617f4ae2da87ccfe73f9243eb0b6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:20 +0000
Subject: [PATCH 61/83] fix: NewNode doesn't release the DB if it fails, Listen
 after Close leaks the listener

---
 node/node.go       | 14 +++++++++++++-
 node/transports.go | 10 ++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/node/node.go b/node/node.go
index e88b5eb..3fbdf43 100644
--- a/node/node.go
+++ b/node/node.go
@@ -108,7 +108,12 @@ func NewNode(conf *Config) (n *Node, err error) {
 		return
 	}
 
-	return NewNodeContainer(conf, c)
+	if n, err = NewNodeContainer(conf, c); err != nil {
+		c.Close() // release the DB
+		return nil, err
+	}
+
+	return
 }
 
 // NewNodeContainer use provided Container.
@@ -345,6 +350,13 @@ func (n *Node) createUDP() {
 
 }
 
+func (n *Node) isClosed() bool {
+	n.mx.Lock()
+	defer n.mx.Unlock()
+
+	return n.closed
+}
+
 func (n *Node) onConnect(c *Conn) error {
 	if occ := n.config.OnConnect; occ != nil {
 		if err := occ(c); err != nil {
diff --git a/node/transports.go b/node/transports.go
index 149d1ea..5be27fc 100644
--- a/node/transports.go
+++ b/node/transports.go
@@ -85,6 +85,11 @@ func (t *TCP) Listen(address string) (err error) {
 		return
 	}
 
+	if t.n.isClosed() == true {
+		t.TCPFactory.Close()
+		return ErrClosed
+	}
+
 	t.isListening = true
 	t.address = address
 	return
@@ -409,6 +414,11 @@ func (u *UDP) Listen(address string) (err error) {
 		return
 	}
 
+	if u.n.isClosed() == true {
+		u.UDPFactory.Close()
+		return ErrClosed
+	}
+
 	u.address = address
 	u.isListening = true
 	return
-- 
2.43.0


From f8caabbeaf3e3aa1493b467a68eb5e10429620b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:33 +0000
Subject: [PATCH 62/83] fix: a value wanted only by readers panics saving with
 zero counter

---
 skyobject/cache.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index ca2a62a..64ac49b 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -778,6 +778,19 @@ func (c *Cache) setWanted(
 		wincs += winc
 	}
 
+	// nobody is going to hold the value, the wanters want
+	// to have a look only; there is nothing to save
+	if inc+wincs <= 0 {
+		for gc := range it.fwant {
+			sendWanted(gc, Object{key, val, 0, nil})
+		}
+
+		if it.fwant = nil; it.fc == 0 {
+			delete(c.is, key)
+		}
+		return
+	}
+
 	// save
 	var urc uint32
 	urc, err = c.db().Set(key, val, inc+wincs)
-- 
2.43.0


From 30b7f44cf8ff9ec0ae386d7fc808ad52c19af14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:33 +0000
Subject: [PATCH 63/83] fix: a head removed and created again reports its Root
 objects twice

---
 node/feed.go  |  6 ++++--
 node/feeds.go | 37 +++++++++++++++++++++++++++++++++++++
 node/head.go  | 16 +++++++++++++---
 3 files changed, 54 insertions(+), 5 deletions(-)

diff --git a/node/feed.go b/node/feed.go
index dd944d4..007a52c 100644
--- a/node/feed.go
+++ b/node/feed.go
@@ -71,12 +71,13 @@ func (n *nodeFeed) receivedRoot(cr connRoot) {
 			n.ho = n.ho[:len(n.ho)-1]
 
 			n.hs[torm].closeByError(ErrMaxHeadsLimit)
+			n.fs.removedHead(n.this, torm, n.hs[torm])
 
 			delete(n.hs, torm) // remove
 
 		}
 
-		nh = newNodeHead(n)
+		nh = newNodeHead(n, n.fs.previousHead(n.this, cr.r.Nonce))
 		n.hs[cr.r.Nonce] = nh
 		n.ho = append(n.ho, cr.r.Nonce)
 	}
@@ -91,8 +92,9 @@ func (n *nodeFeed) close() {
 		return // special blank feed
 	}
 
-	for _, nh := range n.hs {
+	for nonce, nh := range n.hs {
 		nh.close() // close head (without waiting)
+		n.fs.removedHead(n.this, nonce, nh)
 	}
 
 	for c := range n.cs {
diff --git a/node/feeds.go b/node/feeds.go
index ce35c5a..255cf21 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -29,6 +29,12 @@ type connFeed struct {
 	ok uint32 // seq of the subscription request to reply, or zero
 }
 
+// head of a feed
+type feedHead struct {
+	pk    cipher.PubKey
+	nonce uint64
+}
+
 // feeds of the Node
 type nodeFeeds struct {
 	n *Node // back reference
@@ -36,6 +42,8 @@ type nodeFeeds struct {
 	fs map[cipher.PubKey]*nodeFeed // feeds
 	fl []cipher.PubKey             // clear-on-write
 
+	rhs map[feedHead]*nodeHead // removed heads that can be terminating
+
 	addq chan cipher.PubKey // add feed
 	addb chan bool          // add feed boolean reply
 
@@ -87,6 +95,7 @@ func newNodeFeeds(node *Node) (n *nodeFeeds) {
 	n.n = node
 
 	n.fs = make(map[cipher.PubKey]*nodeFeed)
+	n.rhs = make(map[feedHead]*nodeHead)
 
 	// idle connection (not pending)
 	n.fs[cipher.PubKey{}] = newNodeFeed(n, cipher.PubKey{})
@@ -421,6 +430,34 @@ func (n *nodeFeeds) addIdle(c *Conn) {
 
 }
 
+// (handler)
+func (n *nodeFeeds) removedHead(pk cipher.PubKey, nonce uint64, nh *nodeHead) {
+
+	for fh, x := range n.rhs {
+		select {
+		case <-x.doneq:
+			delete(n.rhs, fh) // terminated
+		default:
+		}
+	}
+
+	n.rhs[feedHead{pk, nonce}] = nh
+
+}
+
+// (handler) returns nil if there isn't
+func (n *nodeFeeds) previousHead(
+	pk cipher.PubKey,
+	nonce uint64,
+) (
+	nh *nodeHead,
+) {
+
+	nh = n.rhs[feedHead{pk, nonce}]
+	delete(n.rhs, feedHead{pk, nonce})
+	return
+}
+
 // (bubbling api) never blocks
 func (n *nodeFeeds) broadcastRoot(cr connRoot) {
 
diff --git a/node/head.go b/node/head.go
index 1285981..bd9a986 100644
--- a/node/head.go
+++ b/node/head.go
@@ -32,9 +32,13 @@ type nodeHead struct {
 	await  sync.WaitGroup // wait goroutines
 	closeo sync.Once      // close once
 	closeq chan struct{}  // terminate
+	doneq  chan struct{}  // terminated
 }
 
-func newNodeHead(nf *nodeFeed) (n *nodeHead) {
+// the prev is the same head that was removed and can still be terminating,
+// or nil; the new one starts after it, because they report the same Root
+// objects
+func newNodeHead(nf *nodeFeed, prev *nodeHead) (n *nodeHead) {
 
 	n = new(nodeHead)
 
@@ -42,9 +46,10 @@ func newNodeHead(nf *nodeFeed) (n *nodeHead) {
 
 	n.eq = make(chan struct{}, 1)
 	n.closeq = make(chan struct{})
+	n.doneq = make(chan struct{})
 
 	nf.fs.await.Add(1)
-	go n.handle()
+	go n.handle(prev)
 
 	return
 }
@@ -157,11 +162,16 @@ type fillHead struct {
 	requesting int // number of running requests
 }
 
-func (n *nodeHead) handle() {
+func (n *nodeHead) handle(prev *nodeHead) {
 
 	defer n.n.fs.await.Done()
+	defer close(n.doneq)
 	defer n.await.Wait()
 
+	if prev != nil {
+		<-prev.doneq
+	}
+
 	var (
 		closeq = n.closeq //
 		inforq = n.inforq //
-- 
2.43.0


From 332d977d2cfa28a53d69c0207c9662c1d94f84f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:39 +0000
Subject: [PATCH 64/83] fix: peers disagree about a subscription if one
 unsubscribes while it or other one subscribes

---
 node/conn.go  | 107 ++++++++++++++++++++++++++++++++++++++++----------
 node/feeds.go |  70 ++++++++++++++++++++++++++++++---
 2 files changed, 151 insertions(+), 26 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index e2acf1f..fea619f 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -40,6 +40,7 @@ type Conn struct {
 
 	outmx  sync.Mutex
 	out    []outMsg      // messages to send, in order
+	subs   []connSub     // sent subscriptions without a reply
 	outq   chan struct{} // there are messages to send
 	outsem chan struct{} // limit of the messages (except pushed)
 
@@ -61,6 +62,12 @@ type request struct {
 	hook func(reply msg.Msg) // can be nil
 }
 
+// sent subscription
+type connSub struct {
+	seq  uint32
+	feed cipher.PubKey
+}
+
 func (n *Node) newConnection(
 	fc *factory.Connection, isIncoming bool) *Conn {
 
@@ -318,18 +325,23 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 	// added before the next message is handled.
 	var (
 		added bool
+		seq   = c.nextSeq()
 		onOk  = func(reply msg.Msg) {
 			if _, ok := reply.(*msg.Ok); ok == true {
-				if added = c.n.fs.addConnFeed(c, feed, 0); added == false {
-					c.unsubscribe(feed) // DontShare called meanwhile
-				}
+				added = c.n.fs.addSubscribed(c, feed, seq)
 			}
 		}
 	)
 
-	if reply, err = c.request(&msg.Sub{Feed: feed}, onOk); err != nil {
-		if err == ErrTimeout && c.n.fs.hasConnFeed(c, feed) == false {
-			c.unsubscribe(feed) // the peer can accept it later
+	defer c.takeSub(seq)
+
+	reply, err = c.request(seq, onOk, func() {
+		c.pushSub(seq, feed)
+	})
+
+	if err != nil {
+		if err == ErrTimeout {
+			c.n.fs.cancelSubscribed(c, feed) // the peer can accept it later
 		}
 		return
 	}
@@ -342,6 +354,9 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 			if c.isClosed() == true {
 				return ErrClosed
 			}
+			if c.n.fs.hasFeed(feed) == true {
+				return ErrUnsubscribe // by the Unsubscribe
+			}
 			return ErrNotShared
 		}
 
@@ -361,17 +376,59 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 	return
 }
 
-// just send the messege
+// just send the messege, and cancel all subscriptions
+// sent before; it's called by goroutine of the feeds
 func (c *Conn) unsubscribe(pk cipher.PubKey) {
-	c.pushMsg(&msg.Unsub{
-		Feed: pk,
-	})
+
+	c.outmx.Lock()
+	defer c.outmx.Unlock()
+
+	var i int
+	for _, x := range c.subs {
+		if x.feed != pk {
+			c.subs[i] = x
+			i++
+		}
+	}
+	c.subs = c.subs[:i]
+
+	c.appendOutMsg(outMsg{c.nextSeq(), 0, &msg.Unsub{Feed: pk}, true})
+}
+
+// pushSub is pushMsg for the Sub
+func (c *Conn) pushSub(seq uint32, pk cipher.PubKey) {
+
+	c.outmx.Lock()
+	defer c.outmx.Unlock()
+
+	c.subs = append(c.subs, connSub{seq, pk})
+
+	c.appendOutMsg(outMsg{seq, 0, &msg.Sub{Feed: pk}, true})
+}
+
+// takeSub returns true if the subscription is not
+// cancelled by the unsubscribe
+func (c *Conn) takeSub(seq uint32) bool {
+
+	c.outmx.Lock()
+	defer c.outmx.Unlock()
+
+	for i, x := range c.subs {
+		if x.seq == seq {
+			c.subs = append(c.subs[:i], c.subs[i+1:]...)
+			return true
+		}
+	}
+
+	return false
 }
 
 // Unsubscribe from given feed of remote peer
 func (c *Conn) Unsubscribe(feed cipher.PubKey) {
-	c.n.fs.delConnFeed(c, feed)
-	c.unsubscribe(feed) // notify peer
+	if feed == (cipher.PubKey{}) {
+		return // blank feed is special
+	}
+	c.n.fs.unsubscribe(c, feed) // and notify peer
 	return
 }
 
@@ -544,6 +601,12 @@ func (c *Conn) addOutMsg(om outMsg) {
 	c.outmx.Lock()
 	defer c.outmx.Unlock()
 
+	c.appendOutMsg(om)
+}
+
+// under lock
+func (c *Conn) appendOutMsg(om outMsg) {
+
 	if r, ok := om.m.(*msg.Root); ok == true && om.pushed == true {
 		for i, x := range c.out {
 			if x.pushed == false {
@@ -695,21 +758,26 @@ func (c *Conn) responseTimeout() (rt time.Duration) {
 }
 
 func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
-	return c.request(m, nil)
+	c.n.Debugf(MsgSendPin, "[%s] sendRequest %T", c.String(), m)
+
+	var seq = c.nextSeq()
+
+	return c.request(seq, nil, func() {
+		c.sendMsg(seq, 0, m)
+	})
 }
 
 // The hook is called with the reply by goroutine that
 // receives messages, before it handles next message
 func (c *Conn) request(
-	m msg.Msg,
+	seq uint32,
 	hook func(reply msg.Msg),
+	send func(),
 ) (
 	reply msg.Msg,
 	err error,
 ) {
 
-	c.n.Debugf(MsgSendPin, "[%s] sendRequest %T", c.String(), m)
-
 	var (
 		tr *time.Timer
 		tc <-chan time.Time
@@ -722,15 +790,12 @@ func (c *Conn) request(
 		defer tr.Stop()
 	}
 
-	var (
-		rq  = make(chan msg.Msg, 1)
-		seq = c.nextSeq()
-	)
+	var rq = make(chan msg.Msg, 1)
 
 	c.addRequest(seq, request{rq, hook})
 	defer c.delRequest(seq)
 
-	c.sendMsg(seq, 0, m)
+	send()
 
 	select {
 	case reply = <-rq:
diff --git a/node/feeds.go b/node/feeds.go
index 255cf21..5245944 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -26,7 +26,11 @@ type connFeed struct {
 	c *Conn
 	f cipher.PubKey
 
-	ok uint32 // seq of the subscription request to reply, or zero
+	ok  uint32 // seq of the subscription request to reply, or zero
+	sub uint32 // seq of accepted subscription request, or zero
+
+	unsub  bool // notify the peer
+	absent bool // do that only if the connection isn't subscribed
 }
 
 // head of a feed
@@ -330,8 +334,25 @@ func (n *nodeFeeds) addConnFeed(
 	added bool,
 ) {
 
+	return n.addConnFeedRequest(connFeed{c: c, f: pk, ok: ok})
+}
+
+// (api) the peer has accepted the subscription with given seq
+func (n *nodeFeeds) addSubscribed(
+	c *Conn,
+	pk cipher.PubKey,
+	seq uint32,
+) (
+	added bool,
+) {
+
+	return n.addConnFeedRequest(connFeed{c: c, f: pk, sub: seq})
+}
+
+func (n *nodeFeeds) addConnFeedRequest(cf connFeed) (added bool) {
+
 	select {
-	case n.addcfq <- connFeed{c, pk, ok}:
+	case n.addcfq <- cf:
 	case <-n.closeq:
 		return
 	}
@@ -365,7 +386,16 @@ func (n *nodeFeeds) addConnFeedReply(cf connFeed) (added bool) {
 
 	var nf, ok = n.fs[cf.f]
 
+	if cf.sub != 0 && cf.c.takeSub(cf.sub) == false {
+		return // unsubscribed already
+	}
+
 	if ok == false || cf.c.isClosed() == true {
+
+		if cf.sub != 0 {
+			cf.c.unsubscribe(cf.f) // DontShare called meanwhile
+		}
+
 		return // the Node doesn't share the feed, or the Conn is closed
 	}
 
@@ -385,8 +415,28 @@ func (n *nodeFeeds) addConnFeedReply(cf connFeed) (added bool) {
 // (api)
 func (n *nodeFeeds) delConnFeed(c *Conn, pk cipher.PubKey) {
 
+	n.delConnFeedRequest(connFeed{c: c, f: pk})
+
+}
+
+// (api) the peer receives Unsub
+func (n *nodeFeeds) unsubscribe(c *Conn, pk cipher.PubKey) {
+
+	n.delConnFeedRequest(connFeed{c: c, f: pk, unsub: true})
+
+}
+
+// (api) the peer receives Unsub, if the connection is not subscribed
+func (n *nodeFeeds) cancelSubscribed(c *Conn, pk cipher.PubKey) {
+
+	n.delConnFeedRequest(connFeed{c: c, f: pk, unsub: true, absent: true})
+
+}
+
+func (n *nodeFeeds) delConnFeedRequest(cf connFeed) {
+
 	select {
-	case n.delcfq <- connFeed{c: c, f: pk}:
+	case n.delcfq <- cf:
 	case <-n.closeq:
 	}
 
@@ -397,9 +447,19 @@ func (n *nodeFeeds) handleDelConnFeed(cf connFeed) {
 
 	n.n.Debugln(FeedPin, "handleDelConnFeed", cf.c.String(), cf.f.Hex()[:7])
 
-	var nf, ok = n.fs[cf.f]
+	var (
+		nf, ok = n.fs[cf.f]
+		has    = ok == true && nf.hasConn(cf.c)
+	)
+
+	// the goroutine adds and deletes connections, and sends replies and
+	// Unsubs: the peer receives them in the same order
+
+	if cf.unsub == true && (cf.absent == false || has == false) {
+		cf.c.unsubscribe(cf.f)
+	}
 
-	if ok == false || nf.hasConn(cf.c) == false {
+	if has == false || cf.absent == true {
 		return // no such feed, or it doesn't have the connection
 	}
 
-- 
2.43.0


From 7d8a857a1facea62463216be03b14ecd9a9359a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:09 +0000
Subject: [PATCH 65/83] fix: a peer that sends an empty object ends the process

---
 node/head.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node/head.go b/node/head.go
index bd9a986..c34743d 100644
--- a/node/head.go
+++ b/node/head.go
@@ -555,7 +555,8 @@ func (f *fillHead) request(
 	case *msg.Object:
 		var rk = cipher.SumSHA256(x.Value)
 
-		if rk != key {
+		// an empty object can't be saved, no peer can have it
+		if rk != key || len(x.Value) == 0 {
 			f.requestFailed(
 				failedRequest{c, fil, seq, key, ErrInvalidResponse})
 			return
-- 
2.43.0


From 69840313de308139919796639d9c6d3081112cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:19 +0000
Subject: [PATCH 66/83] fix: a peer that doesn't read and disappears holds the
 connection forever

---
 node/conn.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/node/conn.go b/node/conn.go
index fea619f..4a8d8cd 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -652,7 +652,9 @@ func (c *Conn) sendMsgs() {
 			c.out = c.out[1:]
 			c.outmx.Unlock()
 
-			if c.sendRaw(c.encodeMsg(om.seq, om.rseq, om.m)) != nil {
+			err := c.sendRawTimeout(c.encodeMsg(om.seq, om.rseq, om.m))
+			if err != nil {
+				c.shutdown(err)
 				return
 			}
 
@@ -673,6 +675,28 @@ func (c *Conn) sendRaw(raw []byte) error {
 	}
 }
 
+// If the peer doesn't read, then the goroutine that receives messages can
+// wait for the sending too, and nobody knows the connection is lost.
+func (c *Conn) sendRawTimeout(raw []byte) error {
+
+	var tc <-chan time.Time
+
+	if rt := c.responseTimeout(); rt > 0 {
+		tm := time.NewTimer(rt)
+		defer tm.Stop()
+		tc = tm.C
+	}
+
+	select {
+	case c.sendq <- raw:
+		return nil
+	case <-tc:
+		return ErrTimeout
+	case <-c.closeq:
+		return ErrClosed
+	}
+}
+
 func (c *Conn) receiveMsg() error {
 	c.n.Debugf(ConnPin, "[%s] receiving", c.String())
 
-- 
2.43.0


From f6f2f6e016323f7d03ff5ddcfb8360947028265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:34 +0000
Subject: [PATCH 67/83] fix: Set of closed in-memory CXDS panics

---
 data/cxds/cxds.go   | 1 +
 data/cxds/memory.go | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/data/cxds/cxds.go b/data/cxds/cxds.go
index cf495da..7ea946e 100644
--- a/data/cxds/cxds.go
+++ b/data/cxds/cxds.go
@@ -22,6 +22,7 @@ const Version int = 2 // previous is 1
 // comon errors
 var (
 	ErrEmptyValue = errors.New("empty value")
+	ErrClosed     = errors.New("database is closed")
 
 	ErrWrongValueLength = errors.New("wrong value length")
 
diff --git a/data/cxds/memory.go b/data/cxds/memory.go
index 8149667..356cf7e 100644
--- a/data/cxds/memory.go
+++ b/data/cxds/memory.go
@@ -132,6 +132,11 @@ func (m *memoryCXDS) Set(
 	m.mx.Lock()
 	defer m.mx.Unlock()
 
+	if m.kvs == nil {
+		err = ErrClosed
+		return
+	}
+
 	if mo, ok := m.kvs[key]; ok {
 		rc = m.incr(key, mo, mo.rc, inc)
 		return
-- 
2.43.0


From d7b3f5a0b7972298245b273c9554e0c58aa3f34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:34 +0000
Subject: [PATCH 68/83] fix: Listen and Share called at the same time block
 each other forever

---
 node/transports.go | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/node/transports.go b/node/transports.go
index 5be27fc..842b979 100644
--- a/node/transports.go
+++ b/node/transports.go
@@ -74,6 +74,21 @@ func (t *TCP) getConn(address string) (c *Conn) {
 // only once
 func (t *TCP) Listen(address string) (err error) {
 
+	if err = t.listen(address); err != nil {
+		return
+	}
+
+	// without the lock, since the Node locks
+	// its transports inside its own lock
+	if t.n.isClosed() == true {
+		t.TCPFactory.Close()
+		return ErrClosed
+	}
+
+	return
+}
+
+func (t *TCP) listen(address string) (err error) {
 	t.mx.Lock()
 	defer t.mx.Unlock()
 
@@ -85,11 +100,6 @@ func (t *TCP) Listen(address string) (err error) {
 		return
 	}
 
-	if t.n.isClosed() == true {
-		t.TCPFactory.Close()
-		return ErrClosed
-	}
-
 	t.isListening = true
 	t.address = address
 	return
@@ -403,6 +413,22 @@ func (u *UDP) getConn(address string) (c *Conn) {
 // Listen on given address. It's possible to listen
 // only once
 func (u *UDP) Listen(address string) (err error) {
+
+	if err = u.listen(address); err != nil {
+		return
+	}
+
+	// without the lock, since the Node locks
+	// its transports inside its own lock
+	if u.n.isClosed() == true {
+		u.UDPFactory.Close()
+		return ErrClosed
+	}
+
+	return
+}
+
+func (u *UDP) listen(address string) (err error) {
 	u.mx.Lock()
 	defer u.mx.Unlock()
 
@@ -414,13 +440,8 @@ func (u *UDP) Listen(address string) (err error) {
 		return
 	}
 
-	if u.n.isClosed() == true {
-		u.UDPFactory.Close()
-		return ErrClosed
-	}
-
-	u.address = address
 	u.isListening = true
+	u.address = address
 	return
 }
 
-- 
2.43.0


From 0b43bc4c618366a0be9deff99f0298efd2b6e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:34 +0000
Subject: [PATCH 69/83] fix: NewContainer panics if sizes are wrong, and blocks
 checking in-memory DB

---
 skyobject/container.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/skyobject/container.go b/skyobject/container.go
index 97c388d..65bdc6e 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -65,8 +65,16 @@ func NewContainer(conf *Config) (c *Container, err error) {
 
 	defer func() {
 		if err != nil {
-			c.db.Close()         // ignore error
-			c.Cache.stat.Close() // release resources
+			c.db.Close() // ignore error
+
+			// release resources
+
+			if c.Cache.stat != nil {
+				c.Cache.stat.Close()
+			}
+			if c.Index.stat != nil {
+				c.Index.stat.Close()
+			}
 		}
 	}()
 
@@ -234,11 +242,7 @@ func (c *Container) checkSize() (err error) {
 	}
 
 	err = c.db.CXDS().Iterate(
-		func(key cipher.SHA256, _ uint32, _ []byte) (err error) {
-			var val []byte
-			if val, _, err = c.db.CXDS().Get(key, 0); err != nil {
-				return
-			}
+		func(key cipher.SHA256, _ uint32, val []byte) (err error) {
 			if len(val) > c.conf.MaxObjectSize {
 				return &ObjectIsTooLargeError{key}
 			}
-- 
2.43.0


From 4dfad9156e051976ba61273e4d7e5a1c836d7592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:34 +0000
Subject: [PATCH 70/83] fix: a Root is listed before it is saved, and a listed
 Root is lost if the Container is closed meanwhile

---
 skyobject/container.go |  4 ++++
 skyobject/unpack.go    | 43 +++++++++++++++++++++++++++---------------
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/skyobject/container.go b/skyobject/container.go
index 65bdc6e..e1f5fc9 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -364,6 +364,10 @@ func (c *Container) RootByHash(
 // with user-provided DB.
 func (c *Container) Close() (err error) {
 
+	// wait for saving and deleting of Root objects, they change both databases
+	c.fillmx.Lock()
+	defer c.fillmx.Unlock()
+
 	// the Cache.Close closes CXDS
 	if err = c.Cache.Close(); err == nil {
 		err = c.db.Close()
diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index 3f690c7..58b13fe 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -169,30 +169,40 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 		return data.ErrNoSuchFeed
 	}
 
-	// save into Index and IdxDB
-	var val []byte
+	// save into CXDS, Index and IdxDB; a Root in the Index
+	// is full, thus the CXDS is first
 
-	if val, err = c.Index.saveRoot(up, r); err != nil {
-		return
-	}
+	err = c.Index.saveRoot(up, r, func(val []byte) (err error) {
 
-	// the Root is in the Index
+		// save the Root in CXDS
 
-	held = nil
+		if _, err = c.Set(r.Hash, val, 1); err != nil {
+			return
+		}
+
+		held = append(held, r.Hash)
+
+		// save registry
 
-	// save the Root in CXDS
+		var rr = cipher.SHA256(r.Reg)
+
+		if _, err = c.Set(rr, up.Registry().Encode(), 1); err != nil {
+			return
+		}
 
-	if _, err = c.Set(r.Hash, val, 1); err != nil {
+		held = append(held, rr)
 		return
-	}
 
-	// save registry
+	})
 
-	_, err = c.Set(cipher.SHA256(r.Reg), up.Registry().Encode(), 1)
 	if err != nil {
 		return
 	}
 
+	// the Root is in the Index
+
+	held = nil
+
 	// the objects belong to the Root, others are not used
 
 	return up.unpin()
@@ -201,15 +211,14 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 func (i *Index) saveRoot(
 	up *Unpack,
 	r *registry.Root,
+	saveVal func(val []byte) error, // save encoded Root
 ) (
-	val []byte,
 	err error,
 ) {
 
 	i.mx.Lock()
 	defer i.mx.Unlock()
 
-	// val []byte --> encoded Root
 	var dr = new(data.Root)
 
 	err = i.c.db.IdxDB().Tx(func(fs data.Feeds) (err error) {
@@ -249,7 +258,7 @@ func (i *Index) saveRoot(
 
 		// hash of the Root
 
-		val = r.Encode()
+		var val = r.Encode()
 		r.Hash = cipher.SumSHA256(val)
 		r.IsFull = true
 
@@ -259,6 +268,10 @@ func (i *Index) saveRoot(
 			return err
 		}
 
+		if err = saveVal(val); err != nil {
+			return
+		}
+
 		dr.Seq = r.Seq
 		dr.Prev = r.Prev
 		dr.Hash = r.Hash
-- 
2.43.0


From f4062bedf5b5e056c3068cd5d9f968b5fb1d71ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:34 +0000
Subject: [PATCH 71/83] fix: closing of a Container leaks goroutines, a failure
 of DB skips the closing

---
 skyobject/cache.go      | 9 ++++++---
 skyobject/container.go  | 2 ++
 skyobject/index_stat.go | 2 ++
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 64ac49b..54f8573 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -272,14 +272,17 @@ func (c *Cache) Close() (err error) {
 		it.cc -= it.fc // remove all fincs
 		it.fc = 0
 
-		if err = c.delete(key, it); err != nil {
-			return
+		if e := c.delete(key, it); e != nil && err == nil {
+			err = e // close anyway
 		}
 
 	}
 
 	// close the CXDS
-	err = c.c.db.CXDS().Close()
+	if e := c.c.db.CXDS().Close(); err == nil {
+		err = e
+	}
+
 	c.stat.Close() // close goroutine
 
 	return
diff --git a/skyobject/container.go b/skyobject/container.go
index e1f5fc9..99d0f49 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -368,6 +368,8 @@ func (c *Container) Close() (err error) {
 	c.fillmx.Lock()
 	defer c.fillmx.Unlock()
 
+	c.Index.Close() // statistic only
+
 	// the Cache.Close closes CXDS
 	if err = c.Cache.Close(); err == nil {
 		err = c.db.Close()
diff --git a/skyobject/index_stat.go b/skyobject/index_stat.go
index f564aa1..5e4d3a7 100644
--- a/skyobject/index_stat.go
+++ b/skyobject/index_stat.go
@@ -51,6 +51,8 @@ func (i *indexStat) secondLoop() {
 		tc = tk.C
 	)
 
+	defer tk.Stop()
+
 	for {
 
 		select {
-- 
2.43.0


From 346557591cf96371ea78e7c8a6403ee90bb701d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:31 +0000
Subject: [PATCH 72/83] fix: CXDS on disk crashes the process if it is closed
 while it iterates

---
 data/cxds/drive.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 70b7e61..7daaeb6 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -37,6 +37,10 @@ type driveCXDS struct {
 	volumeAll  int // volume of all objects
 	volumeUsed int // volume of used objects
 
+	vmx    sync.Mutex     // lock the closed and the views
+	views  sync.WaitGroup // read-only transactions
+	closed bool           // no more read-only transactions
+
 	b *bolt.DB
 }
 
@@ -235,6 +239,25 @@ func (d *driveCXDS) putStat(tx *bolt.Tx) (err error) {
 
 }
 
+// view performs read-only transaction; the boltdb doesn't wait
+// for them closing, and reading of closed boltdb is a crash
+func (d *driveCXDS) view(txFunc func(tx *bolt.Tx) error) (err error) {
+
+	d.vmx.Lock()
+
+	if d.closed == true {
+		d.vmx.Unlock()
+		return bolt.ErrDatabaseNotOpen
+	}
+
+	d.views.Add(1)
+	d.vmx.Unlock()
+
+	defer d.views.Done()
+
+	return d.b.View(txFunc)
+}
+
 // update performs read-write transaction; the transaction
 // saves the stat, thus the stat on disk is always actual;
 // the stat is restored if the transaction fails
@@ -360,7 +383,7 @@ func (d *driveCXDS) Get(
 	}
 
 	if inc == 0 {
-		err = d.b.View(tx) // lookup only
+		err = d.view(tx) // lookup only
 	} else {
 		err = d.update(tx) // some changes
 	}
@@ -453,7 +476,7 @@ func (d *driveCXDS) Inc(
 	}
 
 	if inc == 0 {
-		err = d.b.View(tx) // lookup only
+		err = d.view(tx) // lookup only
 	} else {
 		err = d.update(tx) // changes required
 	}
@@ -507,7 +530,7 @@ func (d *driveCXDS) Del(
 // Iterate all keys
 func (d *driveCXDS) Iterate(iterateFunc data.IterateObjectsFunc) (err error) {
 
-	err = d.b.View(func(tx *bolt.Tx) (err error) {
+	err = d.view(func(tx *bolt.Tx) (err error) {
 
 		var (
 			key cipher.SHA256
@@ -603,6 +626,12 @@ func (d *driveCXDS) Volume() (all, used int) {
 // Close DB
 func (d *driveCXDS) Close() (err error) {
 
+	d.vmx.Lock()
+	d.closed = true
+	d.vmx.Unlock()
+
+	d.views.Wait()
+
 	if err = d.saveStat(); err != nil && err != bolt.ErrDatabaseNotOpen {
 		d.b.Close() // drop error
 		return
-- 
2.43.0


From 6f88825f7dfd41c0b8fa7f1fb3382848aecefdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:13 +0000
Subject: [PATCH 73/83] fix: a Root sent by a peer while its filling from other
 peers fails is lost

---
 node/head.go | 52 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/node/head.go b/node/head.go
index c34743d..7f10066 100644
--- a/node/head.go
+++ b/node/head.go
@@ -151,6 +151,9 @@ type fillHead struct {
 
 	p connRoot // waits to be filled
 
+	fail bool       // the filling is failed, and going to be finished
+	late []connRoot // the filling Root received after the failure
+
 	cs knownRoots // conn -> known root objects (seq)
 
 	successq chan succeededRequest // succeeded requests
@@ -215,6 +218,7 @@ func (n *nodeHead) handle(prev *nodeHead) {
 				switch {
 				case he.err != nil: // close with error
 					f.p = connRoot{} // remove pending Root
+					f.late = nil     // and late ones
 					if f.f != nil {
 						f.f.Close()
 						if err = <-f.ff; err != nil {
@@ -233,9 +237,7 @@ func (n *nodeHead) handle(prev *nodeHead) {
 
 		case <-f.tc: // filling timeout
 
-			if f.f != nil {
-				f.f.Fail(ErrTimeout)
-			}
+			f.failFilling(ErrTimeout)
 
 		// api info
 
@@ -329,6 +331,11 @@ func (f *fillHead) handleReceivedRoot(cr connRoot) {
 			return // ignore the old Root
 		}
 
+		if f.fail == true && cr.r.Seq == f.r.r.Seq {
+			f.late = append(f.late, cr) // try again after the failure
+			return
+		}
+
 		var added = f.cs.addKnown(cr.c, cr.r.Seq) // add to known
 
 		if cr.r.Seq == f.r.r.Seq {
@@ -439,6 +446,7 @@ func (f *fillHead) closeFiller() {
 
 	f.r = connRoot{}
 	f.requesting = 0
+	f.fail = false
 
 }
 
@@ -462,27 +470,35 @@ func (f *fillHead) handleFillingResult(err error) {
 
 	// is there a pending Root to be filled?
 
-	// no
-
-	if f.p == (connRoot{}) {
-		return
+	if p := f.p; p != (connRoot{}) {
+		f.p = connRoot{}
+		f.createFiller(p)
 	}
 
-	// yes
+	// is there a connection that has sent the Root after the failure?
 
-	var p = f.p
-	f.p = connRoot{}
+	var late = f.late
+	f.late = nil
 
-	f.createFiller(p)
+	for _, cr := range late {
+		f.handleReceivedRoot(cr)
+	}
 
 }
 
 func (f *fillHead) triggerRequest() {
 
 	if fatal := f.tryRequest(); fatal == true {
-		if f.f != nil {
-			f.f.Fail(ErrNoConnectionsToFillFrom)
-		}
+		f.failFilling(ErrNoConnectionsToFillFrom)
+	}
+
+}
+
+func (f *fillHead) failFilling(err error) {
+
+	if f.f != nil {
+		f.fail = true
+		f.f.Fail(err)
 	}
 
 }
@@ -603,6 +619,14 @@ func (f *fillHead) handleDelConn(c *Conn) {
 		f.p.c = nil // GC
 	}
 
+	for i := 0; i < len(f.late); {
+		if f.late[i].c == c {
+			f.late = append(f.late[:i], f.late[i+1:]...)
+			continue
+		}
+		i++
+	}
+
 }
 
 func (f *fillHead) terminate() {
-- 
2.43.0


From 2059ba23dfe36c5cd03f43fb5225fe61aecea8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:00 +0000
Subject: [PATCH 74/83] fix: RPC method Config fails and closes connection of
 the client

---
 data/data.go | 11 +++++++++++
 node/rpc.go  |  9 +++++++++
 2 files changed, 20 insertions(+)

diff --git a/data/data.go b/data/data.go
index 8be4ef1..c232cd3 100644
--- a/data/data.go
+++ b/data/data.go
@@ -42,6 +42,17 @@ func (d *DB) Close() (err error) {
 	return
 }
 
+// GobEncode always fails. A DB can't be sent, but without the
+// method a struct that contains a nil-DB can't be sent too
+func (d *DB) GobEncode() ([]byte, error) {
+	return nil, errors.New("can't encode DB")
+}
+
+// GobDecode always fails
+func (d *DB) GobDecode([]byte) error {
+	return errors.New("can't decode DB")
+}
+
 // NewDB creates DB by given CXDS and IdxDB.
 // The arguments must not be nil
 func NewDB(cxds CXDS, idxdb IdxDB) *DB {
diff --git a/node/rpc.go b/node/rpc.go
index 9caea36..57c2aa4 100644
--- a/node/rpc.go
+++ b/node/rpc.go
@@ -195,6 +195,15 @@ func (r *RPC) ConnectionsOfFeed(feed cipher.PubKey, cs *[]string) (_ error) {
 // Config is RPC method
 func (r *RPC) Config(_ struct{}, config *Config) (err error) {
 	*config = *r.n.config // copy
+
+	// these can't be sent
+
+	config.Logger.Output = nil
+
+	var sc = *r.n.config.Config // copy
+	sc.DB = nil
+	config.Config = &sc
+
 	return
 
 }
-- 
2.43.0


From c8a881bf0a374a689e05448749da11ed8d45352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:08 +0000
Subject: [PATCH 75/83] fix: IsSharing of blank feed is true

---
 node/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/node/node.go b/node/node.go
index 3fbdf43..ca57330 100644
--- a/node/node.go
+++ b/node/node.go
@@ -752,6 +752,9 @@ func (n *Node) Feeds() (feeds []cipher.PubKey) {
 
 // IsSharing returns true if the Node is sharing given feed
 func (n *Node) IsSharing(feed cipher.PubKey) (ok bool) {
+	if feed == (cipher.PubKey{}) {
+		return // connections that don't share anything
+	}
 	return n.fs.hasFeed(feed)
 }
 
-- 
2.43.0


From 115f54334c0cacadbf0049d19fbb26b9e5cc1124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:14 +0000
Subject: [PATCH 76/83] fix: references counters are wrong after a crash, a
 Root filled later loses objects

The references counters are cached and objects of an interrupted filling
stay in DB, a Filler considers them as full subtrees. Restore the counters
if the CXDS has not been closed safely.
---
 data/cxds.go           |  15 ++++
 data/cxds/drive.go     |  43 +++++++++--
 skyobject/cache.go     |   7 +-
 skyobject/container.go | 172 +++++++++++++++++++++++++++++------------
 4 files changed, 180 insertions(+), 57 deletions(-)

diff --git a/data/cxds.go b/data/cxds.go
index 5f2f97d..807cea7 100644
--- a/data/cxds.go
+++ b/data/cxds.go
@@ -87,3 +87,18 @@ type CXDS interface {
 	// Close the CXDS
 	Close() (err error)
 }
+
+// A SafeCloser is CXDS that remembers how it has been
+// closed. The Container changes references counters with
+// delay, and saved counters are wrong after a crash. The
+// interface is optional. The cxds on disk implements it
+type SafeCloser interface {
+
+	// IsSafeClosed returns true if the CXDS is new or it
+	// has been closed by the SafeClose method last time
+	IsSafeClosed() (yep bool)
+
+	// SafeClose closes the CXDS like the Close, and marks
+	// all references counters as correct
+	SafeClose() (err error)
+}
diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 7daaeb6..67293c9 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -19,6 +19,7 @@ var (
 	metaBucket = []byte("m") // meta information
 
 	versionKey = []byte("version") // version
+	safeKey    = []byte("safe")    // has been closed by the SafeClose
 
 	amountAllKey  = []byte("amount_all")  // amount all
 	amountUsedKey = []byte("amount_used") // amount used
@@ -41,6 +42,8 @@ type driveCXDS struct {
 	views  sync.WaitGroup // read-only transactions
 	closed bool           // no more read-only transactions
 
+	safe bool // the DB is new or it has been closed by the SafeClose
+
 	b *bolt.DB
 }
 
@@ -75,6 +78,8 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 
 	}()
 
+	var safe bool // safe closed last time
+
 	err = b.Update(func(tx *bolt.Tx) (err error) {
 
 		// first of all, take a look the meta bucket
@@ -99,6 +104,8 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 				return
 			}
 
+			safe = true // new DB
+
 			// put stat (zeroes) in the same transaction
 
 			if err = new(driveCXDS).putStat(tx); err != nil {
@@ -122,6 +129,13 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 				return ErrNewVersion
 			}
 
+			// until the SafeClose
+			safe = info.Get(safeKey) != nil
+
+			if err = info.Delete(safeKey); err != nil {
+				return
+			}
+
 		}
 
 		_, err = tx.CreateBucketIfNotExists(objsBucket)
@@ -133,7 +147,7 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 		return
 	}
 
-	var dr = &driveCXDS{b: b} // wrap
+	var dr = &driveCXDS{b: b, safe: safe} // wrap
 
 	// stat
 
@@ -195,11 +209,6 @@ func (d *driveCXDS) loadStat() (err error) {
 
 }
 
-func (d *driveCXDS) saveStat() (err error) {
-
-	return d.b.Update(d.putStat)
-}
-
 // putStat saves the stat inside given transaction
 func (d *driveCXDS) putStat(tx *bolt.Tx) (err error) {
 
@@ -625,6 +634,26 @@ func (d *driveCXDS) Volume() (all, used int) {
 
 // Close DB
 func (d *driveCXDS) Close() (err error) {
+	return d.close(d.putStat)
+}
+
+// IsSafeClosed implements data.SafeCloser interface
+func (d *driveCXDS) IsSafeClosed() (yep bool) {
+	return d.safe
+}
+
+// SafeClose implements data.SafeCloser interface
+func (d *driveCXDS) SafeClose() (err error) {
+	return d.close(func(tx *bolt.Tx) (err error) {
+		if err = d.putStat(tx); err != nil {
+			return
+		}
+		return tx.Bucket(metaBucket).Put(safeKey, []byte{1})
+	})
+}
+
+// close the DB after given transaction
+func (d *driveCXDS) close(last func(tx *bolt.Tx) (err error)) (err error) {
 
 	d.vmx.Lock()
 	d.closed = true
@@ -632,7 +661,7 @@ func (d *driveCXDS) Close() (err error) {
 
 	d.views.Wait()
 
-	if err = d.saveStat(); err != nil && err != bolt.ErrDatabaseNotOpen {
+	if err = d.b.Update(last); err != nil && err != bolt.ErrDatabaseNotOpen {
 		d.b.Close() // drop error
 		return
 	}
diff --git a/skyobject/cache.go b/skyobject/cache.go
index 54f8573..fadb9a7 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -278,8 +278,11 @@ func (c *Cache) Close() (err error) {
 
 	}
 
-	// close the CXDS
-	if e := c.c.db.CXDS().Close(); err == nil {
+	// close the CXDS; if everything is synced, then
+	// references counters are correct
+	if sc, ok := c.db().(data.SafeCloser); ok == true && err == nil {
+		err = sc.SafeClose()
+	} else if e := c.db().Close(); err == nil {
 		err = e
 	}
 
diff --git a/skyobject/container.go b/skyobject/container.go
index 99d0f49..aa7ccbc 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -86,6 +86,11 @@ func NewContainer(conf *Config) (c *Container, err error) {
 	// initialize cache
 	c.initCache()
 
+	// restore references counters after a crash
+	if err = c.restore(); err != nil {
+		return
+	}
+
 	if err = c.Index.load(c); err != nil {
 		return
 	}
@@ -149,31 +154,97 @@ type rcs struct {
 	cc uint32 // correct rc (determined by walking)
 }
 
-type cxdsRCs struct {
-	hr map[cipher.SHA256]rcs // hash -> {rc, actual rc}
+func (c *Container) getHashRCs() (hr map[cipher.SHA256]rcs, err error) {
+	hr = make(map[cipher.SHA256]rcs)
+
+	err = c.db.CXDS().Iterate(
+		func(hash cipher.SHA256, rc uint32, _ []byte) (_ error) {
+			hr[hash] = rcs{rc: rc}
+			return
+		})
 
-	amount uint32 // stat
-	volume uint32 // stat
+	return
 }
 
-func (c *Container) getHashRCs() (cr *cxdsRCs, err error) {
-	cr = new(cxdsRCs)
-	cr.hr = make(map[cipher.SHA256]rcs)
+// restore references counters and remove incomplete Root
+// objects if the DB has not been closed safely; e.g. an
+// object that belongs to an interrupted filling only
+// must not be a part of a full Root (see Filler)
+func (c *Container) restore() (err error) {
 
-	err = c.db.CXDS().Iterate(
-		func(hash cipher.SHA256, rc uint32, val []byte) (err error) {
+	var sc, ok = c.db.CXDS().(data.SafeCloser)
 
-			cr.amount++                   // stat
-			cr.volume += uint32(len(val)) // stat
+	if ok == false || sc.IsSafeClosed() == true {
+		return
+	}
 
-			cr.hr[hash] = rcs{rc: rc}
-			return
+	var hr map[cipher.SHA256]rcs
+	if hr, err = c.getHashRCs(); err != nil {
+		return
+	}
+
+	err = c.db.IdxDB().Tx(func(feeds data.Feeds) (err error) {
+		return feeds.Iterate(func(pk cipher.PubKey) (err error) {
+
+			var hs data.Heads
+			if hs, err = feeds.Heads(pk); err != nil {
+				return
+			}
+
+			return hs.Iterate(func(nonce uint64) (err error) {
+
+				var rs data.Roots
+				if rs, err = hs.Roots(nonce); err != nil {
+					return
+				}
+
+				return c.restoreRoots(rs, hr)
+			})
 		})
+	})
 
 	if err != nil {
 		return
 	}
 
+	for hash, rc := range hr {
+		if rc.cc == rc.rc {
+			continue
+		}
+		if _, err = c.Inc(hash, int(rc.cc)-int(rc.rc)); err != nil {
+			return
+		}
+	}
+
+	return
+}
+
+func (c *Container) restoreRoots(
+	rs data.Roots,
+	hr map[cipher.SHA256]rcs,
+) (
+	err error,
+) {
+
+	var broken []uint64 // seq
+
+	err = rs.Ascend(func(dr *data.Root) (err error) {
+		if err = c.initRoot(hr, dr.Hash); err == data.ErrNotFound {
+			broken, err = append(broken, dr.Seq), nil
+		}
+		return
+	})
+
+	if err != nil {
+		return
+	}
+
+	for _, seq := range broken {
+		if err = rs.Del(seq); err != nil {
+			return
+		}
+	}
+
 	return
 }
 
@@ -187,52 +258,57 @@ func (c *Container) getPack(reg *registry.Registry) (pack *Pack) {
 	return
 }
 
-func (c *Container) initRoot(cr *cxdsRCs, rootHash cipher.SHA256) (err error) {
-
-	var val []byte
-	if val, _, err = c.Get(rootHash, 0); err != nil {
-		return
-	}
+// initRoot adds objects of given Root to correct references
+// counters (the cc), the same way the Save increments them
+func (c *Container) initRoot(
+	hr map[cipher.SHA256]rcs,
+	rootHash cipher.SHA256,
+) (
+	err error,
+) {
 
 	var r *registry.Root
-	if r, err = registry.DecodeRoot(val); err != nil {
-		return
-	}
-
-	if val, _, err = c.Get(cipher.SHA256(r.Reg), 0); err != nil {
+	if r, err = c.rootByHash(rootHash); err != nil {
 		return
 	}
 
-	var reg *registry.Registry
-	if reg, err = registry.DecodeRegistry(val); err != nil {
-		return
-	}
+	var held []cipher.SHA256
 
-	var pack = c.getPack(reg)
+	err = c.Walk(r, func(
+		hash cipher.SHA256,
+		_ int,
+	) (
+		deepper bool,
+		err error,
+	) {
 
-	err = r.Walk(pack,
-		func(
-			hash cipher.SHA256,
-			_ int,
-		) (
-			deepper bool,
-			err error,
-		) {
-
-			var rc, ok = cr.hr[hash]
-			if ok == false {
-				err = data.ErrNotFound
-				return
-			}
-			rc.cc++
-			deepper = rc.cc == 1 // go deepper for first look
-			cr.hr[hash] = rc
+		if hash == (cipher.SHA256{}) {
 			return
+		}
 
-		})
+		var rc, ok = hr[hash]
+		if ok == false {
+			return false, data.ErrNotFound
+		}
 
-	return
+		rc.cc++
+		hr[hash] = rc
+		held = append(held, hash)
+
+		return rc.cc == 1, nil // go deepper for first look
+	})
 
+	if err == nil {
+		return
+	}
+
+	for _, hash := range held {
+		var rc = hr[hash]
+		rc.cc--
+		hr[hash] = rc
+	}
+
+	return
 }
 
 func (c *Container) checkSize() (err error) {
-- 
2.43.0


From 3fb01689b4d9947fec439a1af462c9052db8f56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:47 +0000
Subject: [PATCH 77/83] fix: a Swarm doesn't subscribe to peers connected by
 other feed, hides peers that connected themselves, exceeds MaxConns

---
 node/swarm.go | 59 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/node/swarm.go b/node/swarm.go
index 2f2f110..5651373 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -84,6 +84,7 @@ type Swarm struct {
 	mu sync.RWMutex
 
 	peers map[cipher.PubKey]Peer
+	dials map[cipher.PubKey]struct{} // peers the swarm is connecting to
 }
 
 func newSwarm(
@@ -124,6 +125,7 @@ func newSwarm(
 		done: make(chan struct{}),
 
 		peers: make(map[cipher.PubKey]Peer),
+		dials: make(map[cipher.PubKey]struct{}),
 	}
 
 	return s
@@ -399,6 +401,10 @@ func (s *Swarm) needConns() (uint64, bool) {
 		feedConns   = uint64(len(s.node.ConnectionsOfFeed(s.feed)))
 	)
 
+	s.mu.RLock()
+	feedConns += uint64(len(s.dials)) // will be soon
+	s.mu.RUnlock()
+
 	if connCap == 0 ||
 		pendConnCap == 0 ||
 		feedConns >= s.cfg.MaxConns {
@@ -415,14 +421,14 @@ func (s *Swarm) needConns() (uint64, bool) {
 }
 
 func (s *Swarm) createOutgoingConns(count uint64) {
-	conns := make(map[cipher.PubKey]struct{})
-	for _, c := range s.node.Connections() {
-		conns[c.PeerID()] = struct{}{}
-	}
-
 	var (
+		conns = s.connectedPeers()
+
 		noConn = func(p Peer) bool {
-			_, ok := conns[p.PubKey]
+			if _, ok := conns[p.PubKey]; ok {
+				return false
+			}
+			_, ok := s.dials[p.PubKey]
 			return !ok
 		}
 
@@ -434,18 +440,24 @@ func (s *Swarm) createOutgoingConns(count uint64) {
 	for i := range peers {
 		wg.Add(1)
 
+		s.mu.Lock()
+		s.dials[peers[i].PubKey] = struct{}{}
+		s.mu.Unlock()
+
 		go func(p Peer) {
 			s.node.Debugf(PEXPin, "connecting to peer %s, sharing feed %s",
 				p.PubKey.Hex()[:8], s.feed.Hex()[:8])
 
 			defer wg.Done()
 
-			var (
-				conn *Conn
-				err  error
-			)
+			defer func() {
+				s.mu.Lock()
+				defer s.mu.Unlock()
+
+				delete(s.dials, p.PubKey)
+			}()
 
-			conn, err = s.node.TCP().Connect(p.TCPAddr)
+			conn, err := s.connect(p)
 			if err != nil {
 				s.node.Errorf(err, "failed to connect to peer %s, sharing feed %s",
 					p.PubKey.Hex()[:8], s.feed.Hex()[:8])
@@ -465,6 +477,25 @@ func (s *Swarm) createOutgoingConns(count uint64) {
 	}
 }
 
+// connect to the peer, if the node is not connected to it by other feed
+func (s *Swarm) connect(p Peer) (*Conn, error) {
+	if c, ok := s.node.hasPeer(p.PubKey); ok {
+		return c, nil
+	}
+
+	return s.node.TCP().Connect(p.TCPAddr)
+}
+
+// connectedPeers returns peers that have connection of the feed
+func (s *Swarm) connectedPeers() map[cipher.PubKey]struct{} {
+	conns := make(map[cipher.PubKey]struct{})
+	for _, c := range s.node.ConnectionsOfFeed(s.feed) {
+		conns[c.PeerID()] = struct{}{}
+	}
+
+	return conns
+}
+
 type peerFilter func(Peer) bool
 
 func (s *Swarm) incPeerRetryTimes(pk cipher.PubKey) error {
@@ -499,8 +530,12 @@ func (s *Swarm) resetPeerRetryTimes(pk cipher.PubKey) error {
 
 func (s *Swarm) peersForExchange(peerPK cipher.PubKey) []msg.PeerInfo {
 	var (
+		conns = s.connectedPeers()
+
+		// a peer refuses to connect if it connects to the node itself
 		zeroRetries = func(p Peer) bool {
-			return p.RetryTimes == 0
+			_, ok := conns[p.PubKey]
+			return ok || p.RetryTimes == 0
 		}
 		notItself = func(p Peer) bool {
 			return p.PubKey != peerPK
-- 
2.43.0


From 2541835d53bc564abd567f98728537cd047373d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:03 +0000
Subject: [PATCH 78/83] fix: negative rates of a Swarm panic, huge
 PeersPerResponse panics

---
 node/swarm.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/node/swarm.go b/node/swarm.go
index 5651373..4ff0d63 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -182,16 +182,26 @@ func (s *Swarm) Peers() []Peer {
 	return peers
 }
 
+// ticker is like the time.Tick, negative rate turns it off
+func ticker(rate time.Duration) (tick <-chan time.Time, stop func()) {
+	if rate <= 0 {
+		return nil, func() {}
+	}
+
+	t := time.NewTicker(rate)
+	return t.C, t.Stop
+}
+
 func (s *Swarm) run() {
 	var (
-		requestPeers  = time.NewTicker(s.cfg.RequestPeerRate)
-		clearOldPeers = time.NewTicker(s.cfg.ClearOldPeersRate)
-		outgoingConn  = time.NewTicker(s.cfg.OutgoingConnRate)
+		requestPeers, stopRequests = ticker(s.cfg.RequestPeerRate)
+		clearOldPeers, stopClear   = ticker(s.cfg.ClearOldPeersRate)
+		outgoingConn, stopOutgoing = ticker(s.cfg.OutgoingConnRate)
 	)
 
-	defer requestPeers.Stop()
-	defer clearOldPeers.Stop()
-	defer outgoingConn.Stop()
+	defer stopRequests()
+	defer stopClear()
+	defer stopOutgoing()
 
 LOOP:
 	for {
@@ -199,15 +209,15 @@ LOOP:
 		case <-s.quit:
 			break LOOP
 
-		case <-requestPeers.C:
+		case <-requestPeers:
 			if s.needPeers() {
 				s.requestPeers()
 			}
 
-		case <-clearOldPeers.C:
+		case <-clearOldPeers:
 			s.clearOldPeers()
 
-		case <-outgoingConn.C:
+		case <-outgoingConn:
 			if count, ok := s.needConns(); ok {
 				s.createOutgoingConns(count)
 			}
@@ -556,7 +566,7 @@ func (s *Swarm) peersForExchange(peerPK cipher.PubKey) []msg.PeerInfo {
 func (s *Swarm) randomPeers(count int, filters ...peerFilter) []Peer {
 	filteredPeers := s.filterPeers(filters...)
 
-	if count > len(filteredPeers) {
+	if count < 0 || count > len(filteredPeers) {
 		count = len(filteredPeers)
 	}
 
-- 
2.43.0


From 5d5ed98232a06813727f94bf2de9553f4a756bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:46 +0000
Subject: [PATCH 79/83] fix: a Swarm counts a just established connection
 neither as a dial nor as a connection

---
 node/swarm.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/node/swarm.go b/node/swarm.go
index 4ff0d63..e124932 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -405,16 +405,18 @@ func (s *Swarm) onPeerRemoved(p Peer) {
 }
 
 func (s *Swarm) needConns() (uint64, bool) {
+	// a dial turns to be a connection, thus the dials are counted first
+
+	s.mu.RLock()
+	dials := uint64(len(s.dials)) // will be soon
+	s.mu.RUnlock()
+
 	var (
 		connCap     = uint64(s.node.connCap())
 		pendConnCap = uint64(s.node.pendingConnCap())
-		feedConns   = uint64(len(s.node.ConnectionsOfFeed(s.feed)))
+		feedConns   = dials + uint64(len(s.node.ConnectionsOfFeed(s.feed)))
 	)
 
-	s.mu.RLock()
-	feedConns += uint64(len(s.dials)) // will be soon
-	s.mu.RUnlock()
-
 	if connCap == 0 ||
 		pendConnCap == 0 ||
 		feedConns >= s.cfg.MaxConns {
@@ -432,13 +434,14 @@ func (s *Swarm) needConns() (uint64, bool) {
 
 func (s *Swarm) createOutgoingConns(count uint64) {
 	var (
+		dials = s.dialedPeers() // before the connectedPeers
 		conns = s.connectedPeers()
 
 		noConn = func(p Peer) bool {
 			if _, ok := conns[p.PubKey]; ok {
 				return false
 			}
-			_, ok := s.dials[p.PubKey]
+			_, ok := dials[p.PubKey]
 			return !ok
 		}
 
@@ -496,6 +499,19 @@ func (s *Swarm) connect(p Peer) (*Conn, error) {
 	return s.node.TCP().Connect(p.TCPAddr)
 }
 
+// dialedPeers returns peers the swarm is connecting to
+func (s *Swarm) dialedPeers() map[cipher.PubKey]struct{} {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+
+	dials := make(map[cipher.PubKey]struct{}, len(s.dials))
+	for pk := range s.dials {
+		dials[pk] = struct{}{}
+	}
+
+	return dials
+}
+
 // connectedPeers returns peers that have connection of the feed
 func (s *Swarm) connectedPeers() map[cipher.PubKey]struct{} {
 	conns := make(map[cipher.PubKey]struct{})
-- 
2.43.0


From 555ea5c7cb13952cc30b41cdd2a26cadae201a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:07 +0000
Subject: [PATCH 80/83] fix: data race of Reference method of a Schema

---
 skyobject/registry/schema.go | 45 ++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/skyobject/registry/schema.go b/skyobject/registry/schema.go
index eef0de4..67fa0d2 100644
--- a/skyobject/registry/schema.go
+++ b/skyobject/registry/schema.go
@@ -3,6 +3,7 @@ package registry
 import (
 	"fmt"
 	"reflect"
+	"sync"
 
 	"github.com/skycoin/skycoin/src/cipher"
 	"github.com/skycoin/skycoin/src/cipher/encoder"
@@ -69,6 +70,25 @@ type schema struct {
 	name []byte
 }
 
+// a Schema is used by many goroutines
+var refMutex sync.RWMutex
+
+// reference calculates the SchemaRef once
+func (s *schema) reference(encode func() []byte) (ref SchemaRef) {
+	refMutex.RLock()
+	ref = s.ref
+	refMutex.RUnlock()
+
+	if ref == (SchemaRef{}) {
+		ref = SchemaRef(cipher.SumSHA256(encode()))
+
+		refMutex.Lock()
+		s.ref = ref
+		refMutex.Unlock()
+	}
+	return
+}
+
 func (s *schema) IsReference() bool {
 	return false
 }
@@ -78,10 +98,7 @@ func (s *schema) ReferenceType() ReferenceType {
 }
 
 func (s *schema) Reference() SchemaRef {
-	if s.ref == (SchemaRef{}) {
-		s.ref = SchemaRef(cipher.SumSHA256(s.Encode()))
-	}
-	return s.ref
+	return s.reference(s.Encode)
 }
 
 func (s *schema) HasReferences() bool {
@@ -188,10 +205,7 @@ func (r *referenceSchema) ReferenceType() ReferenceType {
 }
 
 func (r *referenceSchema) Reference() SchemaRef {
-	if r.ref == (SchemaRef{}) {
-		r.ref = SchemaRef(cipher.SumSHA256(r.Encode()))
-	}
-	return r.ref
+	return r.reference(r.Encode)
 }
 
 func (r *referenceSchema) Elem() Schema {
@@ -262,10 +276,7 @@ func (s *sliceSchema) HasReferences() bool {
 }
 
 func (s *sliceSchema) Reference() SchemaRef {
-	if s.ref == (SchemaRef{}) {
-		s.ref = SchemaRef(cipher.SumSHA256(s.Encode()))
-	}
-	return s.ref
+	return s.reference(s.Encode)
 }
 
 func (s *sliceSchema) Elem() Schema {
@@ -322,10 +333,7 @@ func (a *arraySchema) Len() int {
 }
 
 func (a *arraySchema) Reference() SchemaRef {
-	if a.ref == (SchemaRef{}) {
-		a.ref = SchemaRef(cipher.SumSHA256(a.Encode()))
-	}
-	return a.ref
+	return a.reference(a.Encode)
 }
 
 func (a *arraySchema) Size(p []byte) (n int, err error) {
@@ -374,10 +382,7 @@ func (s *structSchema) HasReferences() (has bool) {
 }
 
 func (s *structSchema) Reference() SchemaRef {
-	if s.ref == (SchemaRef{}) {
-		s.ref = SchemaRef(cipher.SumSHA256(s.Encode()))
-	}
-	return s.ref
+	return s.reference(s.Encode)
 }
 
 func (s *structSchema) Fields() []Field {
-- 
2.43.0


From e25d7c225d2f714cf53470b8ed930f189cd7869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:17 +0000
Subject: [PATCH 81/83] fix: the on-disk object store saved volumes modulo 4G

---
 data/cxds/cxds.go  | 18 ++++++++++++++++++
 data/cxds/drive.go | 16 ++++++----------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/data/cxds/cxds.go b/data/cxds/cxds.go
index 7ea946e..0503343 100644
--- a/data/cxds/cxds.go
+++ b/data/cxds/cxds.go
@@ -65,6 +65,24 @@ func decodeUint32(ub []byte) uint32 {
 	return binary.BigEndian.Uint32(ub)
 }
 
+// a volume can be greater than 4G
+func encodeVolume(volume int) (vb []byte) {
+	vb = make([]byte, 8)
+	binary.BigEndian.PutUint64(vb, uint64(volume))
+	return
+}
+
+// volumes used to be saved as uint32
+func decodeVolume(vb []byte) (volume int, err error) {
+	switch len(vb) {
+	case 4:
+		return int(decodeUint32(vb)), nil
+	case 8:
+		return int(binary.BigEndian.Uint64(vb)), nil
+	}
+	return 0, ErrWrongValueLength
+}
+
 // increment slice
 func incSlice(b []byte) {
 	for i := len(b) - 1; i >= 0; i-- {
diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 67293c9..c05fb34 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -189,20 +189,16 @@ func (d *driveCXDS) loadStat() (err error) {
 
 		// volume all
 
-		if val = info.Get(volumeAllKey); len(val) != 4 {
-			return ErrWrongValueLength
+		if d.volumeAll, err = decodeVolume(info.Get(volumeAllKey)); err != nil {
+			return
 		}
 
-		d.volumeAll = int(decodeUint32(val))
-
 		// volume used
 
-		if val = info.Get(volumeUsedKey); len(val) != 4 {
-			return ErrWrongValueLength
+		if d.volumeUsed, err = decodeVolume(info.Get(volumeUsedKey)); err != nil {
+			return
 		}
 
-		d.volumeUsed = int(decodeUint32(val))
-
 		return
 
 	})
@@ -235,7 +231,7 @@ func (d *driveCXDS) putStat(tx *bolt.Tx) (err error) {
 
 	// volume all
 
-	err = info.Put(volumeAllKey, encodeUint32(uint32(d.volumeAll)))
+	err = info.Put(volumeAllKey, encodeVolume(d.volumeAll))
 
 	if err != nil {
 		return
@@ -243,7 +239,7 @@ func (d *driveCXDS) putStat(tx *bolt.Tx) (err error) {
 
 	// volume used
 
-	err = info.Put(volumeUsedKey, encodeUint32(uint32(d.volumeUsed)))
+	err = info.Put(volumeUsedKey, encodeVolume(d.volumeUsed))
 	return
 
 }
-- 
2.43.0


From 97d20e4a3acc20e9476e1a5850580bcdaf6870e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:15 +0000
Subject: [PATCH 82/83] fix: a database file with a damaged version panicked

---
 data/cxds/drive.go  | 4 ++++
 data/idxdb/drive.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index c05fb34..25b8254 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -121,6 +121,10 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 				return ErrMissingVersion
 			}
 
+			if len(vb) != 4 {
+				return ErrWrongValueLength
+			}
+
 			switch vers := int(binary.BigEndian.Uint32(vb)); {
 			case vers == Version: // ok
 			case vers < Version:
diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index 3369915..e6024d2 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -74,6 +74,10 @@ func NewDriveIdxDB(fileName string) (idx data.IdxDB, err error) {
 				return ErrMissingVersion
 			}
 
+			if len(vb) != 4 {
+				return ErrInvalidSize
+			}
+
 			switch vers := int(binary.BigEndian.Uint32(vb)); {
 			case vers == Version: // ok
 			case vers < Version:
-- 
2.43.0


From 05db4db1a2df7ed05c84ea9b984893e5cdfa5989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:26 +0000
Subject: [PATCH 83/83] fix: the first saved root of a head kept its Seq and
 Prev

---
 skyobject/unpack.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index 58b13fe..c82b9a7 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -250,10 +250,11 @@ func (i *Index) saveRoot(
 		if lastHash != (cipher.SHA256{}) {
 			r.Seq = lastSeq + 1
 			r.Prev = lastHash
+		} else {
+			r.Seq = 0                // the first Root
+			r.Prev = cipher.SHA256{} // of the head
 		}
 
-		// else -> 0 and blank
-
 		r.Time = time.Now().UnixNano()
 
 		// hash of the Root
-- 
2.43.0

