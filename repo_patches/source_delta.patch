From 743068da59287594215038d8ae4c400a71591e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 01/69] fix: make type merging total, structure or JSON mixed
 with scalars no longer fails a line

---
 flatjsonl/type.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/type.go b/flatjsonl/type.go
index c0a3638..c94928c 100644
--- a/flatjsonl/type.go
+++ b/flatjsonl/type.go
@@ -18,15 +18,29 @@ const (
 
 // Update merges original type with updated.
 func (t Type) Update(u Type) Type {
+	// Undefined type does not update anything.
+	if u == TypeAbsent {
+		return t
+	}
+
 	// Undefined type is replaced by update.
 	if t == TypeAbsent || t == TypeNull {
 		return u
 	}
 
+	if u == TypeNull {
+		return t
+	}
+
 	if t == TypeObject || t == TypeArray {
 		return u
 	}
 
+	// Structure does not change the type of scalar values.
+	if u == TypeObject || u == TypeArray {
+		return t
+	}
+
 	// Same type is not updated.
 	if t == u {
 		return t
@@ -37,10 +51,6 @@ func (t Type) Update(u Type) Type {
 		return TypeString
 	}
 
-	if u == TypeNull {
-		return t
-	}
-
 	// Bool and non-bool make unconstrained type: string.
 	if (t == TypeBool && u != TypeBool) || (t != TypeBool && u == TypeBool) {
 		return TypeString
@@ -55,5 +65,6 @@ func (t Type) Update(u Type) Type {
 		return TypeFloat
 	}
 
-	panic("don't know how to update " + t + " with " + u)
+	// Any other mix (e.g. JSON and number) makes unconstrained type: string.
+	return TypeString
 }
-- 
2.43.0


From 037e0feb4ea21a0df3076701e6fb4c9abd82fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 02/69] fix: single included key lost values with other
 spelling, dots, brackets or extraction

---
 flatjsonl/flattener.go | 24 +++++++++++++++++++-----
 flatjsonl/keys.go      | 27 +++++++++++++++++++++++++++
 flatjsonl/processor.go | 13 -------------
 flatjsonl/reader.go    | 23 +++--------------------
 4 files changed, 49 insertions(+), 38 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index cf74ed7..55dc366 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -49,12 +49,26 @@ func (fv *FastWalker) configure(p *Processor) {
 	}
 }
 
-// GetKey walks into a single key.
-func (fv *FastWalker) GetKey(seq int64, flatPath []byte, path []string, v *fastjson.Value) {
-	vv := v.Get(path...)
-	if vv != nil {
-		fv.WalkFastJSON(seq, flatPath, 0, path, vv)
+// GetKey walks into a single key, it returns false if the key is not found.
+func (fv *FastWalker) GetKey(seq int64, flatPath []byte, path []string, v *fastjson.Value) bool {
+	for _, s := range path {
+		if v.Type() == fastjson.TypeArray {
+			i, err := strconv.Atoi(strings.Trim(s, "[]"))
+			if err != nil || s != "["+strconv.Itoa(i)+"]" {
+				return false
+			}
+
+			s = strconv.Itoa(i)
+		}
+
+		if v = v.Get(s); v == nil {
+			return false
+		}
 	}
+
+	fv.WalkFastJSON(seq, flatPath, 0, path, v)
+
+	return true
 }
 
 // WalkFastJSON iterates fastjson.Value JSON structure.
diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index b381051..69bbd03 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -711,6 +711,33 @@ func (p *Processor) prepareKeys() {
 	p.keys = keys
 }
 
+// singleKey returns path of the only included key to access it without a full walk.
+// Nil is returned if full walk is necessary.
+func (p *Processor) singleKey() (path []string, flat []byte) {
+	if len(p.includeKeys) != 1 || p.f.ExtractStrings || len(p.extractRegex) > 0 {
+		return nil, nil
+	}
+
+	for _, i := range p.includeKeys {
+		variants := 0
+
+		p.flKeys.Range(func(_ uint64, k flKey) bool {
+			if k.canonical == p.keys[i].canonical {
+				variants++
+			}
+
+			return true
+		})
+
+		// Same key can be available in multiple spellings.
+		if variants == 1 {
+			path = p.keys[i].path
+		}
+	}
+
+	return path, []byte(KeyFromPath(path))
+}
+
 func (p *Processor) prepareKey(origKey string) (kk string) {
 	ck := p.ck(origKey)
 
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 9e1f037..c33e49c 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -545,13 +545,6 @@ func newWriteIterator(p *Processor, pkIndex map[uint64]int, pkDst map[uint64]str
 	wi.pending = xsync.NewMapOf[int64, *lineBuf]()
 	wi.finished = &sync.Map{}
 
-	if len(p.includeKeys) == 1 {
-		for _, i := range p.includeKeys {
-			kk := p.keys[i]
-			wi.singleKeyHash = newHasher().hashBytes([]byte("." + strings.Join(kk.path, ".")))
-		}
-	}
-
 	wi.lineBufPool = sync.Pool{
 		New: func() interface{} {
 			return &lineBuf{
@@ -651,8 +644,6 @@ type writeIterator struct {
 	finished *sync.Map
 
 	inProgress int64
-
-	singleKeyHash uint64
 }
 
 func (wi *writeIterator) setupWalker(w *FastWalker) {
@@ -706,10 +697,6 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 }
 
 func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
-	if wi.singleKeyHash != 0 && pk != wi.singleKeyHash {
-		return
-	}
-
 	i, ok := wi.pkIndex[pk]
 	if !ok {
 		return
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 08cccda..be1e889 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -211,23 +211,7 @@ func (rd *Reader) Read(sess *readSession) error {
 		doLineErr error
 	)
 
-	if len(rd.Processor.includeKeys) == 1 && !rd.Processor.f.ExtractStrings {
-		for _, i := range rd.Processor.includeKeys {
-			kk := rd.Processor.keys[i]
-			path := make([]string, 0, len(kk.path))
-
-			for _, s := range kk.path {
-				if s[0] == '[' && s[len(s)-1] == ']' {
-					s = s[1 : len(s)-1]
-				}
-
-				path = append(path, s)
-			}
-
-			rd.singleKeyPath = path
-			rd.singleKeyFlat = []byte("." + strings.Join(kk.path, "."))
-		}
-	}
+	rd.singleKeyPath, rd.singleKeyFlat = rd.Processor.singleKey()
 
 	var n int64
 
@@ -351,9 +335,8 @@ func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
 			rd.OnError(fmt.Errorf("malformed JSON at line %d: %w: %s", seq, err, string(line)))
 		}
 	} else {
-		if rd.singleKeyPath != nil {
-			w.walker.GetKey(seq, rd.singleKeyFlat, rd.singleKeyPath, pv)
-		} else {
+		// Key with multiple segments may be missing because of dots in property names, full walk finds those.
+		if rd.singleKeyPath == nil || (!w.walker.GetKey(seq, rd.singleKeyFlat, rd.singleKeyPath, pv) && len(rd.singleKeyPath) > 1) {
 			w.walker.WalkFastJSON(seq, flatPath, 0, path, pv)
 		}
 	}
-- 
2.43.0


From 0b915f31adf73304f7fcefa51d681912de458c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 03/69] fix: malformed number made its row and all later rows
 disappear

---
 flatjsonl/flattener.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 55dc366..182fbdd 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -81,13 +81,16 @@ func (fv *FastWalker) WalkFastJSON(seq int64, flatPath []byte, pl int, path []st
 	case fastjson.TypeString:
 		fv.walkFastJSONString(seq, flatPath, pl, path, v)
 	case fastjson.TypeNumber:
+		fv.buf = fv.buf[:0]
+		fv.buf = v.MarshalTo(fv.buf)
+
 		n, err := v.Float64()
 		if err != nil {
-			panic(fmt.Sprintf("BUG: failed to use JSON number %q at %d:%s: %v", v.String(), seq, string(flatPath), err))
-		}
+			// Parser does not validate numbers, value that is not a number is kept as is.
+			fv.FnString(seq, flatPath, pl, path, fv.buf)
 
-		fv.buf = fv.buf[:0]
-		fv.buf = v.MarshalTo(fv.buf)
+			return
+		}
 
 		fv.FnNumber(seq, flatPath, pl, path, n, fv.buf)
 	case fastjson.TypeFalse, fastjson.TypeTrue:
-- 
2.43.0


From 8cf148d466aa8a58bdfbb1daa40377f80555039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 04/69] fix: memory soft limit below actual usage made
 processing hang

---
 flatjsonl/reader.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index be1e889..0b09476 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -216,14 +216,11 @@ func (rd *Reader) Read(sess *readSession) error {
 	var n int64
 
 	for sess.scanner.Scan() {
-		for {
-			if atomic.LoadInt64(&rd.Processor.throttle) != 0 {
-				atomic.StoreInt64(&rd.Processor.throttle, 0)
-				runtime.GC()
-				time.Sleep(110 * time.Millisecond)
-			} else {
-				break
-			}
+		// Soft limit delays a line once, waiting for memory to be released may never end.
+		if atomic.LoadInt64(&rd.Processor.throttle) != 0 {
+			atomic.StoreInt64(&rd.Processor.throttle, 0)
+			runtime.GC()
+			time.Sleep(110 * time.Millisecond)
 		}
 
 		if err := sess.scanner.Err(); err != nil {
-- 
2.43.0


From cd20f412f166e613294b638bd3f6a67af3df8d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 05/69] fix: -skip-zero-cols had no effect

---
 flatjsonl/keys.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 69bbd03..c8885eb 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -84,7 +84,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	key := KeyFromPath(path)
 
 	k.UpdateType(t)
-	k.isZero = k.isZero && isZero
+	k.isZero = isZero
 	k.path = pp
 	k.original = key
 	k.canonical = p.ck(key)
@@ -336,7 +336,7 @@ func (p *Processor) scanAvailableKeys() error {
 
 					pk, parent := h.hashParentBytes(flatPath, pl)
 
-					_, stop = p.scanKey(pk, parent, path, TypeObject, false)
+					_, stop = p.scanKey(pk, parent, path, TypeObject, true)
 
 					return stop
 				}
@@ -347,7 +347,7 @@ func (p *Processor) scanAvailableKeys() error {
 
 					pk, parent := h.hashParentBytes(flatPath, pl)
 
-					_, stop = p.scanKey(pk, parent, path, TypeArray, false)
+					_, stop = p.scanKey(pk, parent, path, TypeArray, true)
 
 					return stop
 				}
@@ -420,6 +420,7 @@ func (p *Processor) prepareScannedKeys() {
 
 		hcOrig = append(hcOrig, k.original)
 		k.t = TypeJSON
+		k.isZero = false
 
 		p.flKeys.Store(key, k)
 
-- 
2.43.0


From ebce9b9322df294c631e45a7e18f6baf1f57bdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 06/69] fix: list of key types had unbounded duplicates and
 missing types

---
 flatjsonl/keys.go | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index c8885eb..934f900 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -29,19 +29,22 @@ type flKey struct {
 }
 
 func (k *flKey) UpdateType(u Type) {
-	if len(k.tt) == 0 {
-		k.tt = append(k.tt, u)
-	} else {
-		for _, t := range k.tt {
-			if t != u {
-				k.tt = append(k.tt, u)
+	if !k.hasType(u) {
+		// Copy of flKey can be used concurrently, its list of types should not be shared.
+		k.tt = append(k.tt[:len(k.tt):len(k.tt)], u)
+	}
 
-				break
-			}
+	k.t = k.t.Update(u)
+}
+
+func (k *flKey) hasType(u Type) bool {
+	for _, t := range k.tt {
+		if t == u {
+			return true
 		}
 	}
 
-	k.t = k.t.Update(u)
+	return false
 }
 
 type intOrString struct {
@@ -140,15 +143,7 @@ func (p *Processor) scanKey(pk, parent uint64, path []string, t Type, isZero boo
 		k = p.initKey(pk, parent, path, t, isZero)
 	}
 
-	updType := false
-
-	if k.t != t {
-		k.UpdateType(t)
-
-		updType = true
-	}
-
-	if updType || (k.isZero && !isZero) {
+	if !k.hasType(t) || (k.isZero && !isZero) {
 		p.mu.Lock()
 		defer p.mu.Unlock()
 
-- 
2.43.0


From 4b960ffc84d2aadff053e0876b39b58d203d6852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 07/69] fix: numbers with fraction or exponent were reported as
 int

---
 flatjsonl/keys.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 934f900..54bc02c 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -353,11 +353,11 @@ func (p *Processor) scanAvailableKeys() error {
 
 					return x
 				}
-				w.FnNumber = func(_ int64, flatPath []byte, pl int, path []string, value float64, _ []byte) {
+				w.FnNumber = func(_ int64, flatPath []byte, pl int, path []string, value float64, raw []byte) {
 					pk, parent := h.hashParentBytes(flatPath, pl)
-					isInt := float64(int(value)) == value
 
-					if isInt {
+					// Value is written in original spelling, e.g. 1.0 or 1e3 can not be used as integer.
+					if _, err := strconv.ParseInt(string(raw), 10, 64); err == nil {
 						p.scanKey(pk, parent, path, TypeInt, value == 0)
 					} else {
 						p.scanKey(pk, parent, path, TypeFloat, value == 0)
-- 
2.43.0


From 52da584c1d0c8a9ec5e268de154ba21a7960c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 08/69] fix: column of several keys had the type of its first
 key

---
 flatjsonl/keys.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 54bc02c..05b8eb7 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -678,8 +678,12 @@ func (p *Processor) prepareKeys() {
 	for i, pk := range p.keys {
 		if pk.transposeDst == "" {
 			if j, ok := keyExists[pk.replaced]; ok {
-				pk.UpdateType(p.keys[i].t)
-				p.keys[i] = pk
+				keys[j].UpdateType(pk.t)
+
+				if p.cfg.ConcatDelimiter != nil {
+					keys[j].UpdateType(TypeString)
+				}
+
 				keyMap[i] = j
 
 				continue
-- 
2.43.0


From dc976b7b2eecd464e2ef9934aaac40a86b11d3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 09/69] fix: sequence numbers and indexes from 100000 lost
 digits

---
 flatjsonl/flattener.go | 2 +-
 flatjsonl/writer.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 182fbdd..935815f 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -268,7 +268,7 @@ func Format(v interface{}) string {
 	case string:
 		return val
 	case float64:
-		return strconv.FormatFloat(val, 'g', 5, 64)
+		return strconv.FormatFloat(val, 'f', -1, 64)
 	case bool:
 		return strconv.FormatBool(val)
 	default:
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 7caafba..49f09f2 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -50,7 +50,7 @@ func (v Value) Format() string {
 			return v.RawNumber
 		}
 
-		return strconv.FormatFloat(v.Number, 'g', 5, 64)
+		return strconv.FormatFloat(v.Number, 'f', -1, 64)
 	case TypeBool:
 		return strconv.FormatBool(v.Bool)
 	case TypeNull:
-- 
2.43.0


From 7b15f8acd20693579937c6d9c62ec12c2684baf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 10/69] fix: spelling of case-insensitive key was random and
 could drop the column

---
 flatjsonl/keys.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 05b8eb7..7649f2c 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -121,10 +121,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 		p.collectKeyCardinality(k)
 	}
 
-	if _, ok := p.canonicalKeys[k.canonical]; !ok {
-		p.flKeysList = append(p.flKeysList, k.original)
-		p.canonicalKeys[k.canonical] = k
-	}
+	p.flKeysList = append(p.flKeysList, k.original)
 
 	p.flKeys.Store(pk, k)
 	atomic.AddInt64(&p.totalKeys, 1)
@@ -458,10 +455,22 @@ func (p *Processor) prepareScannedKeys() {
 
 	var newFlKeys []string
 
+	h := newHasher()
+
+	// First spelling of a key that has values is used, there can be more if keys are not case-sensitive.
 	for _, key := range p.flKeysList {
-		if !deleted[key] {
-			newFlKeys = append(newFlKeys, key)
+		if deleted[key] {
+			continue
+		}
+
+		if _, ok := p.canonicalKeys[p.ck(key)]; ok {
+			continue
 		}
+
+		k, _ := p.flKeys.Load(h.hashBytes([]byte(key)))
+		p.canonicalKeys[k.canonical] = k
+
+		newFlKeys = append(newFlKeys, key)
 	}
 
 	p.flKeysList = newFlKeys
@@ -506,11 +515,15 @@ func (p *Processor) flKeysInit() {
 			return true
 		}
 
-		v := p.canonicalKeys[value.canonical]
-		value.isZero = value.isZero && v.isZero
-		value.t = v.t.Update(value.t)
+		v, ok := p.canonicalKeys[value.canonical]
+		if !ok {
+			v = value
+		}
+
+		v.isZero = v.isZero && value.isZero
+		v.t = v.t.Update(value.t)
 
-		p.canonicalKeys[value.canonical] = value
+		p.canonicalKeys[value.canonical] = v
 
 		return true
 	})
-- 
2.43.0


From 5d7aeefa802238326e60cd116ce0c3bf7d038bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 11/69] fix: -children-limit dropped keys that share name
 prefix with limited parent

---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 7649f2c..eb4af95 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -433,7 +433,7 @@ func (p *Processor) prepareScannedKeys() {
 				}
 			}
 
-			if len(k.original) > len(hc) && strings.HasPrefix(k.original, hc) {
+			if strings.HasPrefix(k.original, hc+".") {
 				p.flKeys.Delete(key)
 
 				deleted[k.original] = true
-- 
2.43.0


From 077d50fbfe0b294f9f5d83ef3d8609a9f98a9e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 12/69] fix: -children-limit counted line prefix groups as
 children of root

---
 flatjsonl/keys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index eb4af95..7c8189d 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -117,7 +117,8 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 		return existing
 	}
 
-	if p.f.ChildrenLimit > 0 && len(k.path) > 1 {
+	// Line prefix groups have no parent.
+	if p.f.ChildrenLimit > 0 && len(k.path) > 1 && k.parent != 0 {
 		p.collectKeyCardinality(k)
 	}
 
-- 
2.43.0


From 8d1a7523504c63e2e4fc1f6b9d746fe4713c38ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 13/69] fix: -show-keys-hier panicked without keys

---
 flatjsonl/processor.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index c33e49c..3e1ad14 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -334,9 +334,12 @@ func (p *Processor) maybeShowKeys() error {
 	}
 
 	if p.f.ShowKeysHier {
-		b, err := assertjson.MarshalIndentCompact(
-			p.keyHierarchy.Hierarchy().(map[string]interface{})["."], //nolint:errcheck
-			"", " ", 120)
+		hier := any([]any{})
+		if root, ok := p.keyHierarchy.Hierarchy().(map[string]interface{}); ok {
+			hier = root["."]
+		}
+
+		b, err := assertjson.MarshalIndentCompact(hier, "", " ", 120)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 417feac5e686e01a5a946027bd30824d75977d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 14/69] fix: -show-json-schema with extracted URL never
 finished

---
 flatjsonl/flattener.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 935815f..b553b05 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -243,9 +243,10 @@ func (fv *FastWalker) walkFastJSONString(seq int64, flatPath []byte, pl int, pat
 
 			v, err := p.ParseBytes(us)
 			if err == nil {
-				flatPath = append(flatPath, []byte(".URL")...)
 				pl := len(flatPath)
 
+				flatPath = append(flatPath, []byte(".URL")...)
+
 				if fv.WantPath {
 					fv.WalkFastJSON(seq, flatPath, pl, append(path, "URL"), v)
 				} else {
-- 
2.43.0


From 18c7169abfffb2c0f33fd1b8f2fe3102a5f3d4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 15/69] fix: -offset-lines had no effect when keys are listed
 explicitly

---
 flatjsonl/processor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 3e1ad14..fe51b78 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -468,6 +468,7 @@ func (p *Processor) iterateForWriters() error {
 	})
 
 	p.rd.MaxLines = 0
+	p.rd.OffsetLines = int64(p.f.OffsetLines)
 	atomic.StoreInt64(&p.rd.Sequence, 0)
 	atomic.StoreInt64(&p.errors, 0)
 
-- 
2.43.0


From 02aca6ebe91692618bbdeda77b52c7d1f854e965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 16/69] fix: null hid values of other keys of the same column

---
 flatjsonl/processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index fe51b78..865e60a 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -734,13 +734,13 @@ func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 	ev := l.values[i]
 	t := ev.Type
 
-	if t == TypeAbsent {
+	if t == TypeAbsent || t == TypeNull {
 		l.values[i] = v
 
 		return
 	}
 
-	if wi.p.cfg.ConcatDelimiter != nil && v.Type != TypeAbsent {
+	if wi.p.cfg.ConcatDelimiter != nil && v.Type != TypeAbsent && v.Type != TypeNull {
 		cv := Value{
 			Type:   TypeString,
 			String: ev.Format() + *wi.p.cfg.ConcatDelimiter + v.Format(),
-- 
2.43.0


From a081690080b6834ae70221b708a8dd4985505b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 17/69] fix: transposing failed on properties with empty name
 or leading bracket

---
 flatjsonl/keys.go | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 7c8189d..d59d2d0 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -68,7 +68,7 @@ func (is intOrString) Value() Value {
 }
 
 func (is intOrString) String() string {
-	if is.s != "" {
+	if is.t == TypeString {
 		return is.s
 	}
 
@@ -199,25 +199,21 @@ func scanTransposedKey(dst string, tk string, k *flKey) {
 		trimmed = trimmed[1:]
 	}
 
-	// Array.
-	if trimmed[0] == '[' {
-		pos := strings.Index(trimmed, "]")
-		idx := trimmed[1:pos]
-
-		i, err := strconv.Atoi(idx)
-		if err != nil {
-			panic("BUG: failed to parse idx " + idx + ": " + err.Error())
-		}
+	idx := trimmed
 
-		trimmed = trimmed[pos+1:]
-		k.transposeKey = intOrString{t: TypeInt, i: i}
+	if pos := strings.Index(trimmed, "."); pos >= 0 {
+		idx = trimmed[:pos]
+		trimmed = trimmed[pos:]
 	} else {
-		if pos := strings.Index(trimmed, "."); pos > 0 {
-			k.transposeKey = intOrString{t: TypeString, s: trimmed[0:pos]}
-			trimmed = trimmed[pos:]
-		} else {
-			k.transposeKey = intOrString{t: TypeString, s: trimmed}
-			trimmed = ""
+		trimmed = ""
+	}
+
+	k.transposeKey = intOrString{t: TypeString, s: idx}
+
+	// Array.
+	if strings.HasPrefix(idx, "[") && strings.HasSuffix(idx, "]") {
+		if i, err := strconv.Atoi(idx[1 : len(idx)-1]); err == nil {
+			k.transposeKey = intOrString{t: TypeInt, i: i}
 		}
 	}
 
-- 
2.43.0


From ea8a11057df23fc0500bb3369233528ddcaa9c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 18/69] fix: index of transposed arrays and objects was typed
 by the last key

---
 flatjsonl/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 49f09f2..f2ba6b2 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -164,7 +164,7 @@ func (b *baseWriter) setupKeys(keys []flKey) {
 		tw := b.transposedWriter(key.transposeDst, keys)
 
 		tw.keyIndexes = append(tw.keyIndexes, i)
-		tw.indexType = key.transposeKey.t
+		tw.indexType = tw.indexType.Update(key.transposeKey.t)
 
 		ik, ok := tw.trimmedKeys[key.transposeTrimmed]
 		if !ok {
-- 
2.43.0


From 30f918411d25e6182008112e097b0c59d87102a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 19/69] fix: transposing took keys that merely share name
 prefix, nested prefixes were random

---
 flatjsonl/keys.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index d59d2d0..58e4429 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -93,11 +93,13 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	k.canonical = p.ck(key)
 	k.parent = parent
 
+	transposePrefix := ""
+
 	for tk, dst := range p.cfg.Transpose {
-		if len(k.original) > len(tk) && strings.HasPrefix(k.original, tk) {
+		// The longest prefix wins.
+		if len(tk) >= len(transposePrefix) && strings.HasPrefix(k.original, strings.TrimSuffix(tk, ".")+".") {
+			transposePrefix = tk
 			scanTransposedKey(dst, tk, &k)
-
-			break
 		}
 	}
 
@@ -212,7 +214,7 @@ func scanTransposedKey(dst string, tk string, k *flKey) {
 
 	// Array.
 	if strings.HasPrefix(idx, "[") && strings.HasSuffix(idx, "]") {
-		if i, err := strconv.Atoi(idx[1 : len(idx)-1]); err == nil {
+		if i, err := strconv.Atoi(idx[1 : len(idx)-1]); err == nil && idx == "["+strconv.Itoa(i)+"]" {
 			k.transposeKey = intOrString{t: TypeInt, i: i}
 		}
 	}
-- 
2.43.0


From bc398e0a85bfe1dfc7a2e9a13abeaec73242159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 20/69] fix: explicitly listed keys were empty if not found by
 scanning or extracted by pattern

---
 flatjsonl/keys.go | 66 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 24 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 58e4429..9f1bf21 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -475,36 +475,54 @@ func (p *Processor) prepareScannedKeys() {
 	p.flKeysList = newFlKeys
 }
 
-func (p *Processor) flKeysInit() {
-	if p.flKeys.Size() == 0 && len(p.includeKeys) > 0 {
-		h := newHasher()
+// addUnscannedKey registers explicitly included key that was not found by scanning.
+func (p *Processor) addUnscannedKey(key string) {
+	pk := newHasher().hashBytes([]byte(key))
 
-		for key := range p.includeKeys {
-			if strings.HasPrefix(key, "const:") {
-				continue
-			}
+	if _, ok := p.flKeys.Load(pk); ok {
+		return
+	}
 
-			path := strings.Split(strings.TrimPrefix(key, "."), ".")
-			flatPath := []byte(key)
-			pk := h.hashBytes(flatPath)
+	if _, ok := p.canonicalKeys[p.ck(key)]; ok {
+		return
+	}
 
-			k := flKey{
-				path:      path,
-				isZero:    false,
-				t:         TypeString,
-				original:  key,
-				canonical: p.ck(key),
-			}
+	k := flKey{
+		path:      strings.Split(strings.TrimPrefix(key, "."), "."),
+		isZero:    false,
+		t:         TypeString,
+		original:  key,
+		canonical: p.ck(key),
+	}
 
-			for r, x := range p.extractRegex {
-				if r.MatchString(key) {
-					k.extractor = x
+	for r, x := range p.extractRegex {
+		if r.MatchString(key) {
+			k.extractor = x
 
-					break
-				}
-			}
+			break
+		}
+	}
+
+	p.flKeys.Store(pk, k)
+}
 
-			p.flKeys.Store(pk, k)
+func (p *Processor) flKeysInit() {
+	for key := range p.includeKeys {
+		if strings.HasPrefix(key, "const:") {
+			continue
+		}
+
+		p.addUnscannedKey(key)
+
+		if len(p.extractRegex) == 0 {
+			continue
+		}
+
+		// Value can be a part of extracted parent.
+		for i := 1; i < len(key); i++ {
+			if key[i] == '.' {
+				p.addUnscannedKey(key[:i])
+			}
 		}
 	}
 
-- 
2.43.0


From 4827b6aa362fac4eb98cd7b19ad0d3ca6485fceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 21/69] fix: -replace-keys panicked on keys without latin
 letters or digits and on ambiguous constants

---
 flatjsonl/keys.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 9f1bf21..1dec248 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -821,25 +821,24 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	snk := strings.Trim(ski, "[]")
 
 	for {
-		if len(snk) == 0 {
-			panic("BUG: empty snk for '" + origKey + "'")
-		}
-
-		if stored, ok := p.replaceByKey[snk]; (!ok || origKey == stored) && (snk[0] == '_' || unicode.IsLetter(rune(snk[0]))) {
-			p.replaceByKey[snk] = origKey
-			origKey = snk
+		// Segment can be empty, for example if it has no latin letters or digits.
+		if len(snk) > 0 {
+			if stored, ok := p.replaceByKey[snk]; (!ok || origKey == stored) && (snk[0] == '_' || unicode.IsLetter(rune(snk[0]))) {
+				p.replaceByKey[snk] = origKey
+				origKey = snk
 
-			break
+				break
+			}
 		}
 
 		i--
 
-		if i == 0 {
+		if i <= 0 {
 			break
 		}
 
 		ski := toSnakeCase(sk[i])
-		snk = strings.Trim(ski, "[]") + "_" + snk
+		snk = strings.Trim(strings.Trim(ski, "[]")+"_"+snk, "_")
 	}
 
 	return origKey
-- 
2.43.0


From 71462bc3d5ceac709c02576863435761bf9ed8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 22/69] fix: -key-limit gave different keys the same name

---
 flatjsonl/keys.go      | 41 +++++++++++++++++++++++++++++++++++++----
 flatjsonl/processor.go |  1 +
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 1dec248..b158382 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -9,6 +9,7 @@ import (
 	"strings"
 	"sync/atomic"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/cespare/xxhash/v2"
 )
@@ -657,6 +658,7 @@ func (p *Processor) prepareKeys() {
 
 	p.replaceKeys = make(map[string]string)
 	p.replaceByKey = make(map[string]string)
+	p.limitedKeys = make(map[string]string)
 
 	for k, r := range p.cfg.ReplaceKeys {
 		mk := p.ck(k)
@@ -775,12 +777,11 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 		return rep
 	}
 
+	idx := p.includeKeys[origKey]
+
 	defer func() {
 		if p.f.KeyLimit > 0 && len(kk) > p.f.KeyLimit {
-			i := p.includeKeys[kk]
-			is := strconv.Itoa(i)
-
-			kk = kk[0:(p.f.KeyLimit-len(is))] + is
+			kk = p.limitKey(kk, idx)
 
 			p.replaceKeys[ck] = kk
 		}
@@ -844,6 +845,38 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	return origKey
 }
 
+// limitKey truncates long name and adds a numeric suffix to keep it unique.
+func (p *Processor) limitKey(name string, i int) string {
+	// Keys that are replaced with the same name share a column.
+	if limited, ok := p.limitedKeys[name]; ok {
+		return limited
+	}
+
+	for ; ; i++ {
+		is := strconv.Itoa(i)
+		end := max(p.f.KeyLimit-len(is), 0)
+
+		for end > 0 && !utf8.RuneStart(name[end]) {
+			end--
+		}
+
+		limited := name[:end] + is
+
+		if _, ok := p.replaceByKey[limited]; ok {
+			continue
+		}
+
+		if _, ok := p.includeKeys[limited]; ok {
+			continue
+		}
+
+		p.replaceByKey[limited] = name
+		p.limitedKeys[name] = limited
+
+		return limited
+	}
+}
+
 var (
 	matchFirstCap        = regexp.MustCompile("(.)([A-Z][a-z]+)")
 	matchAllCap          = regexp.MustCompile("([a-z0-9])([A-Z])")
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 865e60a..98d911c 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -45,6 +45,7 @@ type Processor struct {
 
 	replaceKeys  map[string]string
 	replaceByKey map[string]string
+	limitedKeys  map[string]string
 
 	// keys are ordered by replaced column names, indexes match values of includeKeys.
 	keys []flKey
-- 
2.43.0


From f2dc30070c672f2199384391d1075541fe2fe6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 23/69] fix: failures of writing the last part of CSV, RAW or
 SQLite output were not reported

---
 flatjsonl/csv_writer.go    | 11 +++++------
 flatjsonl/raw_writer.go    |  8 ++------
 flatjsonl/sqlite_writer.go |  5 ++---
 3 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/flatjsonl/csv_writer.go b/flatjsonl/csv_writer.go
index e65f6be..de14369 100644
--- a/flatjsonl/csv_writer.go
+++ b/flatjsonl/csv_writer.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"encoding/csv"
+	"errors"
 	"fmt"
 )
 
@@ -127,13 +128,11 @@ func (c *CSVWriter) ReceiveRow(seq int64, values []Value) error {
 func (c *CSVWriter) Close() error {
 	c.w.Flush()
 
-	for _, tw := range c.transposed {
-		tw.w.Flush()
+	errs := []error{c.w.Error()}
 
-		if err := tw.f.Close(); err != nil {
-			println("failed to close transpose CSV file: " + err.Error())
-		}
+	for _, tw := range c.transposed {
+		errs = append(errs, tw.Close())
 	}
 
-	return c.f.Close()
+	return errors.Join(append(errs, c.f.Close())...)
 }
diff --git a/flatjsonl/raw_writer.go b/flatjsonl/raw_writer.go
index 0f7916d..a7a50d0 100644
--- a/flatjsonl/raw_writer.go
+++ b/flatjsonl/raw_writer.go
@@ -120,12 +120,8 @@ func (c *RawWriter) Close() error {
 	}
 
 	for _, tw := range c.transposed {
-		if err := tw.w.Flush(); err != nil {
-			return fmt.Errorf("failed to flush transposed RAW file: %w", err)
-		}
-
-		if err := tw.f.Close(); err != nil {
-			println("failed to close transposed RAW file: " + err.Error())
+		if err := tw.Close(); err != nil {
+			return fmt.Errorf("failed to close transposed RAW file: %w", err)
 		}
 	}
 
diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 7d27ffc..18d76e4 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -258,9 +258,8 @@ _seq_id integer,
 // Close commits outstanding transaction and closes database instance.
 func (c *SQLiteWriter) Close() error {
 	if c.tx != nil {
-		err := c.tx.Commit()
-		if err != nil {
-			println(err.Error())
+		if err := c.commitTx(); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From 3f32b85f59331ae2e024814e546ffd7ac2d3c3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 24/69] fix: PostgreSQL dump failed if number of columns is a
 multiple of table size

---
 flatjsonl/pg_dump_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index bd5108e..02de49c 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -196,7 +196,7 @@ func (c *PGDumpWriter) insert(seq int64, tn string, values []string) error {
 	tw := c.csvCopiers[tableName]
 
 	for {
-		if len(values) < c.maxCols {
+		if len(values) <= c.maxCols {
 			row := make([]string, 0, len(values)+1)
 			row = append(row, strconv.Itoa(int(seq)))
 			row = append(row, values...)
-- 
2.43.0


From 5bd6a2132af78f02b5a644ffefb8d0a3658fcb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 25/69] fix: PostgreSQL dump had no type for columns kept as
 JSON

---
 flatjsonl/pg_dump_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 02de49c..1d28b3e 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -290,7 +290,7 @@ func (c *PGDumpWriter) createTable(tn string, keys []flKey, isTransposed bool) e
 			if _, ok := c.p.cfg.ParseTime[k.original]; ok {
 				tp = " TIMESTAMP"
 			}
-		case TypeAbsent, TypeNull:
+		default:
 			tp = " VARCHAR"
 		}
 
-- 
2.43.0


From 3bcde5fb4748460d91b8d13b31c53f9968b5fc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 26/69] fix: SQLite output failed on quotes in column names and
 NUL in values

---
 flatjsonl/sqlite_writer.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 18d76e4..17a0c33 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -134,23 +134,27 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 	res := `INSERT INTO "` + tableName + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
 	part := 1
 
+	var args []any
+
 	for i, v := range values {
 		if i > 0 && i%c.maxCols == 0 {
 			c.rowsTx++
 
 			res = res[:len(res)-1] + ")"
 
-			if err := c.execTx(res); err != nil {
+			if err := c.execTx(res, args); err != nil {
 				return err
 			}
 
+			args = nil
 			part++
 			tableName = tn + partSuffix + strconv.Itoa(part)
 			res = `INSERT INTO "` + tableName + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
 		}
 
 		if v.Type != TypeNull && v.Type != TypeAbsent {
-			res += `"` + c.replacer.Replace(v.Format()) + `",`
+			res += `?,`
+			args = append(args, v.Format())
 		} else {
 			res += `NULL,`
 		}
@@ -158,7 +162,7 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 
 	res = res[:len(res)-1] + ")"
 
-	return c.execTx(res)
+	return c.execTx(res, args)
 }
 
 func (c *SQLiteWriter) commitTx() error {
@@ -172,7 +176,7 @@ func (c *SQLiteWriter) commitTx() error {
 	return nil
 }
 
-func (c *SQLiteWriter) execTx(res string) error {
+func (c *SQLiteWriter) execTx(res string, args []any) error {
 	if c.tx == nil {
 		tx, err := c.db.Begin()
 		if err != nil {
@@ -183,7 +187,7 @@ func (c *SQLiteWriter) execTx(res string) error {
 		c.rowsTx = 0
 	}
 
-	_, err := c.tx.Exec(res)
+	_, err := c.tx.Exec(res, args...)
 	if err != nil {
 		return fmt.Errorf("failed to insert SQLite row: %w", err)
 	}
@@ -242,7 +246,7 @@ _seq_id integer,
 			tp = " REAL"
 		}
 
-		createTable += `"` + k.replaced + `"` + tp + `,` + "\n"
+		createTable += `"` + c.replacer.Replace(k.replaced) + `"` + tp + `,` + "\n"
 	}
 
 	createTable = createTable[:len(createTable)-2] + "\n)"
-- 
2.43.0


From 6b04bb6c514ab692c461250949776fbafaaa32ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 27/69] fix: csvequals ignored different columns of files
 without rows

---
 cmd/csvequals/main.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/csvequals/main.go b/cmd/csvequals/main.go
index eb96685..00d3a68 100644
--- a/cmd/csvequals/main.go
+++ b/cmd/csvequals/main.go
@@ -119,6 +119,18 @@ func main() {
 			keys1 = append(keys1, r1...)
 			keys2 = append(keys2, r2...)
 
+			for _, k := range keys1 {
+				m1[k] = k
+			}
+
+			for _, k := range keys2 {
+				m2[k] = k
+			}
+
+			if diff := mapDiff(m1, m2); len(diff) > 0 {
+				log.Fatalln("found diff in columns:\n" + strings.Join(diff, "\n"))
+			}
+
 			continue
 		}
 
-- 
2.43.0


From bff31458e9f3a2875a8f5ebdf06e8d6e46783659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 28/69] fix: invalid -match-line-prefix panicked

---
 flatjsonl/processor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 98d911c..ad92b62 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -179,7 +179,12 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 	}
 
 	if f.MatchLinePrefix != "" {
-		p.rd.MatchPrefix = regexp.MustCompile(f.MatchLinePrefix)
+		r, err := regexp.Compile(f.MatchLinePrefix)
+		if err != nil {
+			return nil, fmt.Errorf("match line prefix: %w", err)
+		}
+
+		p.rd.MatchPrefix = r
 	}
 
 	p.replaceRegex = map[*regexp.Regexp]string{}
-- 
2.43.0


From 912f268a6bc43a2771211e0a141c2d23633e1e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 29/69] fix: outputTZ was not applied to times with explicit
 offset

---
 flatjsonl/processor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index ad92b62..e3a3084 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -730,6 +730,10 @@ func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 			if err != nil {
 				v.String = fmt.Sprintf("failed to parse time %s: %s", v.String, err)
 			} else {
+				if wi.outputTZ != nil {
+					t = t.In(wi.outputTZ)
+				}
+
 				v.String = t.Format(wi.outTimeFmt)
 			}
 		}
-- 
2.43.0


From d7632fc771bd3718d50a144d1e9f6d57b50437c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 30/69] fix: -field-limit split multibyte characters

---
 flatjsonl/processor.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index e3a3084..5ed712e 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -15,6 +15,7 @@ import (
 	"sync/atomic"
 	"time"
 	_ "time/tzdata" // Loading timezones.
+	"unicode/utf8"
 
 	"github.com/bool64/progress"
 	xsync "github.com/puzpuzpuz/xsync/v3"
@@ -663,7 +664,12 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 	w.FnArrayStop = nil
 	w.FnString = func(seq int64, flatPath []byte, pl int, _ []string, value []byte) extractor {
 		if wi.fieldLimit != 0 && len(value) > wi.fieldLimit {
-			value = value[0:wi.fieldLimit]
+			end := wi.fieldLimit
+			for end > 0 && !utf8.RuneStart(value[end]) {
+				end--
+			}
+
+			value = value[0:end]
 		}
 
 		l, _ := wi.pending.Load(seq)
-- 
2.43.0


From 2b04090dc99c5ab7eb0a3ef040ef2c9740e71667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 31/69] fix: invalid extraction format or output time zone was
 ignored

---
 flatjsonl/processor.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 5ed712e..7fb6316 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -225,6 +225,15 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 		}
 
 		p.extractRegex[r] = x.Extractor()
+		if p.extractRegex[r] == nil {
+			return nil, fmt.Errorf("extract values: unexpected format %q", x)
+		}
+	}
+
+	if cfg.OutputTimezone != "" {
+		if _, err := time.LoadLocation(cfg.OutputTimezone); err != nil {
+			return nil, fmt.Errorf("output timezone: %w", err)
+		}
 	}
 
 	go p.watchMemUsage()
-- 
2.43.0


From 718e9cd75286dd27fc3503069a05a6929bdde84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 32/69] fix: output of unknown format was skipped with success

---
 flatjsonl/flags.go     | 5 ++++-
 flatjsonl/processor.go | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/flags.go b/flatjsonl/flags.go
index 64b2728..f6332a5 100644
--- a/flatjsonl/flags.go
+++ b/flatjsonl/flags.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"flag"
+	"fmt"
 	"runtime"
 	"strings"
 	"time"
@@ -49,6 +50,8 @@ type Flags struct {
 
 	Concurrency int
 	MemLimit    int
+
+	outputErr error
 }
 
 // Register registers command-line flags.
@@ -156,7 +159,7 @@ func (f *Flags) PrepareOutput() {
 			continue
 		}
 
-		println("unexpected output", output)
+		f.outputErr = fmt.Errorf("unexpected output: %s", output)
 	}
 }
 
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 7fb6316..a7469b5 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -107,6 +107,10 @@ func loadConfig(value string, cfg *Config) error {
 
 // NewProcessor creates an instance of Processor.
 func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //nolint:funlen
+	if f.outputErr != nil {
+		return nil, f.outputErr
+	}
+
 	pr := &progress.Progress{
 		Interval:         f.ProgressInterval,
 		IncrementalSpeed: true,
-- 
2.43.0


From 8f169cfbef62ecda1f9af375bf356a99b23a8b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 33/69] fix: comments of JSON5 configuration were taken for
 values

---
 flatjsonl/processor.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index a7469b5..0cd2fe8 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -94,12 +94,17 @@ func loadConfig(value string, cfg *Config) error {
 		return fmt.Errorf("read config file: %w", err)
 	}
 
-	yerr := yaml.Unmarshal(b, cfg)
-	if yerr != nil {
-		err = json5.Unmarshal(b, cfg)
-		if err != nil {
-			return fmt.Errorf("decode config file: json5: %w, yaml: %s", err, yerr) //nolint
+	// JSON5 goes first, because YAML can take its comments for values.
+	if json5.Valid(b) {
+		if err = json5.Unmarshal(b, cfg); err != nil {
+			return fmt.Errorf("decode config file: json5: %w", err)
 		}
+
+		return nil
+	}
+
+	if err = yaml.Unmarshal(b, cfg); err != nil {
+		return fmt.Errorf("decode config file: not JSON5, yaml: %w", err)
 	}
 
 	return nil
-- 
2.43.0


From a36dd80cc07bcf5a6528d4b4d01f21fbdba15204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 34/69] fix: JSON schema did not allow some input lines and
 misplaced nested types

---
 flatjsonl/flattener.go | 61 +++++++++++++++++++++++++++---------------
 flatjsonl/keys.go      | 27 +++++++++----------
 flatjsonl/processor.go |  1 +
 3 files changed, 54 insertions(+), 35 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index b553b05..0ce9b2a 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -282,6 +282,25 @@ type jsonSchema struct {
 	Types      []string               `json:"type,omitempty"`
 	Properties map[string]*jsonSchema `json:"properties,omitempty"`
 	Items      *jsonSchema            `json:"items,omitempty"`
+
+	structure []Type
+}
+
+// finalize allows structures next to scalar types, types of a mere structure are not listed.
+func (j *jsonSchema) finalize() {
+	if len(j.Types) > 0 {
+		for _, t := range j.structure {
+			j.AddType(t)
+		}
+	}
+
+	for _, p := range j.Properties {
+		p.finalize()
+	}
+
+	if j.Items != nil {
+		j.Items.finalize()
+	}
 }
 
 func (j *jsonSchema) AddType(t Type) {
@@ -341,38 +360,38 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 	}
 
 	parentSchema := j
-	parentType := TypeObject
 
 	for i := len(parents) - 1; i >= 0; i-- {
 		pk := parents[i]
 		name := pk.path[len(pk.path)-1]
 
-		if i != 0 && pk.t == TypeString {
-			pk.t = TypeObject
-		}
-
-		if parentType == TypeObject {
-			if parentSchema.Properties == nil {
-				parentSchema.Properties = make(map[string]*jsonSchema)
-			}
-
-			property := parentSchema.Properties[name]
-			if property == nil {
-				property = &jsonSchema{}
-			}
-
-			parentSchema.Properties[name] = property
-			parentSchema = property
-
-			parentType = pk.t
-		} else if parentType == TypeArray {
+		if i < len(parents)-1 && parents[i+1].hasType(TypeArray) && strings.HasPrefix(name, "[") {
 			if parentSchema.Items == nil {
 				parentSchema.Items = &jsonSchema{}
 			}
 
 			parentSchema = parentSchema.Items
-			parentType = pk.t
+
+			continue
 		}
+
+		if parentSchema.Properties == nil {
+			parentSchema.Properties = make(map[string]*jsonSchema)
+		}
+
+		property := parentSchema.Properties[name]
+		if property == nil {
+			property = &jsonSchema{}
+		}
+
+		parentSchema.Properties[name] = property
+		parentSchema = property
+	}
+
+	if k.t == TypeObject || k.t == TypeArray {
+		parentSchema.structure = append(parentSchema.structure, k.tt...)
+
+		return
 	}
 
 	for _, t := range k.tt {
diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index b158382..f026cd8 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -420,21 +420,16 @@ func (p *Processor) prepareScannedKeys() {
 	})
 
 	p.flKeys.Range(func(key uint64, k flKey) bool {
-		if k.t == TypeObject || k.t == TypeArray {
+		structure := k.t == TypeObject || k.t == TypeArray
+		if structure {
 			deleted[k.original] = true
-
-			return true
 		}
 
 		for _, hc := range hcOrig {
-			if k.original == hc {
-				if p.f.ShowJSONSchema {
-					p.jsonSchema.AddKey(k, p.flKeys)
-				}
-			}
-
 			if strings.HasPrefix(k.original, hc+".") {
-				p.flKeys.Delete(key)
+				if !structure {
+					p.flKeys.Delete(key)
+				}
 
 				deleted[k.original] = true
 
@@ -442,14 +437,18 @@ func (p *Processor) prepareScannedKeys() {
 			}
 		}
 
-		if p.f.ShowKeysHier {
-			p.keyHierarchy.Add(k.path)
-		}
-
 		if p.f.ShowJSONSchema {
 			p.jsonSchema.AddKey(k, p.flKeys)
 		}
 
+		if structure {
+			return true
+		}
+
+		if p.f.ShowKeysHier {
+			p.keyHierarchy.Add(k.path)
+		}
+
 		return true
 	})
 
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 0cd2fe8..922cc53 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -374,6 +374,7 @@ func (p *Processor) maybeShowKeys() error {
 
 	if p.f.ShowJSONSchema {
 		p.jsonSchema.Title = "Root"
+		p.jsonSchema.finalize()
 
 		b, err := assertjson.MarshalIndentCompact(p.jsonSchema, "", " ", 120)
 		if err != nil {
-- 
2.43.0


From d0cbc3e9e48ae1374f4a8ced6412390458df5128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 35/69] fix: automatic name could repeat a name made by pattern

---
 flatjsonl/keys.go | 66 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index f026cd8..f2f1a7e 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -685,6 +685,17 @@ func (p *Processor) prepareKeys() {
 		return len(sorted[i].orig) < len(sorted[j].orig)
 	})
 
+	// Names made by patterns are not available for automatic naming.
+	for _, v := range sorted {
+		ck := p.ck(v.orig)
+
+		if k, ok := p.canonicalKeys[ck]; ok && p.replaceKeys[ck] == "" && k.transposeDst == "" {
+			if name, ok := p.patternName(k.original); ok {
+				p.replaceByKey[name] = k.original
+			}
+		}
+	}
+
 	for _, v := range sorted {
 		origKey := v.orig
 
@@ -786,29 +797,8 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 		}
 	}()
 
-	for reg, rep := range p.replaceRegex {
-		kr := origKey
-
-		matches := reg.FindStringSubmatch(origKey)
-		if matches != nil {
-			kr = rep
-
-			for i, m := range matches {
-				if i == 0 {
-					continue
-				}
-
-				kr = strings.ReplaceAll(kr, "${"+strconv.Itoa(i)+"}", trimSpaces.ReplaceAllString(strings.TrimSpace(m), "_"))
-			}
-		}
-
-		if kr != origKey {
-			if strings.HasSuffix(kr, "|to_snake_case") {
-				kr = toSnakeCase(strings.TrimSuffix(kr, "|to_snake_case"))
-			}
-
-			return kr
-		}
+	if name, ok := p.patternName(origKey); ok {
+		return name
 	}
 
 	if !p.f.ReplaceKeys {
@@ -844,6 +834,36 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	return origKey
 }
 
+// patternName makes a name for the key that matches a configured pattern.
+func (p *Processor) patternName(origKey string) (string, bool) {
+	for reg, rep := range p.replaceRegex {
+		kr := origKey
+
+		matches := reg.FindStringSubmatch(origKey)
+		if matches != nil {
+			kr = rep
+
+			for i, m := range matches {
+				if i == 0 {
+					continue
+				}
+
+				kr = strings.ReplaceAll(kr, "${"+strconv.Itoa(i)+"}", trimSpaces.ReplaceAllString(strings.TrimSpace(m), "_"))
+			}
+		}
+
+		if kr != origKey {
+			if strings.HasSuffix(kr, "|to_snake_case") {
+				kr = toSnakeCase(strings.TrimSuffix(kr, "|to_snake_case"))
+			}
+
+			return kr, true
+		}
+	}
+
+	return "", false
+}
+
 // limitKey truncates long name and adds a numeric suffix to keep it unique.
 func (p *Processor) limitKey(name string, i int) string {
 	// Keys that are replaced with the same name share a column.
-- 
2.43.0


From c9b13867934065eb68d35d01e42b7a04907eab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:17 +0000
Subject: [PATCH 36/69] fix: zst output without data was not a valid compressed
 stream

---
 flatjsonl/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index f2ba6b2..948f583 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -387,7 +387,7 @@ func newFileWriter(fn string) (*fileWriter, error) {
 		case strings.HasSuffix(fn, ".zst"):
 			c.compressed = progress.NewCountingWriter(c.f)
 
-			c.f, err = zstd.NewWriter(c.compressed, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
+			c.f, err = zstd.NewWriter(c.compressed, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true), zstd.WithZeroFrames(true))
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From aa5a2785fa50b70fc19a42654bff35f01aa1e911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 37/69] fix: decompressor of stopped pass kept reading the
 input of the next pass

---
 flatjsonl/reader.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 0b09476..dc7150e 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -63,6 +63,7 @@ type readSession struct {
 	scanner *bufio.Scanner
 	fj      *os.File
 	r       io.Reader
+	dec     func() // Closes decompressor and stops its background reading.
 
 	setupWalker  func(w *FastWalker)
 	lineStarted  func(seq int64) error
@@ -72,6 +73,10 @@ type readSession struct {
 func (rs *readSession) Close() {
 	rs.pr.Stop()
 
+	if rs.dec != nil {
+		rs.dec()
+	}
+
 	if rs.fj != nil {
 		if err := rs.fj.Close(); err != nil {
 			println("failed to close file:", err.Error())
@@ -134,19 +139,27 @@ func (rd *Reader) session(in Input, task string) (sess *readSession, err error)
 	case "gzip":
 		cr.SetLines(nil)
 
-		if r, err = gzip.NewReader(sess.r); err != nil {
+		gz, err := gzip.NewReader(sess.r)
+		if err != nil {
 			return nil, fmt.Errorf("failed to init gzip reader: %w", err)
 		}
 
+		r = gz
+		sess.dec = func() {
+			_ = gz.Close() //nolint:errcheck // Failures of reading are already reported.
+		}
 		lines = progress.NewCountingReader(r)
 		sess.r = lines
 	case "zst":
 		cr.SetLines(nil)
 
-		if r, err = zstd.NewReader(sess.r); err != nil {
+		zs, err := zstd.NewReader(sess.r)
+		if err != nil {
 			return nil, fmt.Errorf("failed to init zstd reader: %w", err)
 		}
 
+		r = zs
+		sess.dec = zs.Close
 		lines = progress.NewCountingReader(r)
 		sess.r = lines
 	}
-- 
2.43.0


From 89c1d83e8c64aec5942756937cb2821f634a53f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 38/69] fix: URL extraction by pattern that matches extracted
 parts never finished

---
 flatjsonl/url.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flatjsonl/url.go b/flatjsonl/url.go
index 858ecd9..56208f6 100644
--- a/flatjsonl/url.go
+++ b/flatjsonl/url.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"encoding/json"
+	"errors"
 	"net/url"
 	"strings"
 )
@@ -37,6 +38,8 @@ func decodeURL(s string) (URL, error) {
 	return uv, nil
 }
 
+var errNotURL = errors.New("not a URL")
+
 type urlExtractor struct{}
 
 // Name returns format name.
@@ -51,6 +54,11 @@ func (urlExtractor) extract(s []byte) ([]byte, extract, error) {
 		return nil, "", err
 	}
 
+	// Nothing to extract, and the same value could match extraction pattern again and again.
+	if len(uv.Path) == 1 && uv.Path[0] == string(s) {
+		return nil, "", errNotURL
+	}
+
 	j, err := json.Marshal(uv)
 
 	return j, extractURL, err
-- 
2.43.0


From 26948de0a0d9ebdd3fd593ed1f71c09de03511a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 39/69] fix: extraction by pattern took plain text for a JSON
 number

---
 flatjsonl/extract.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/extract.go b/flatjsonl/extract.go
index 5eb4795..74c1508 100644
--- a/flatjsonl/extract.go
+++ b/flatjsonl/extract.go
@@ -1,5 +1,13 @@
 package flatjsonl
 
+import (
+	"bytes"
+	"encoding/json"
+	"errors"
+)
+
+var errNotJSON = errors.New("not a JSON")
+
 // extract is the name of extractable format.
 type extract string
 
@@ -37,7 +45,12 @@ type extractor interface {
 
 type jsonExtractor struct{}
 
-func (jsonExtractor) extract(s []byte) (json []byte, name extract, err error) {
+func (jsonExtractor) extract(s []byte) (_ []byte, name extract, err error) {
+	// Parser does not validate numbers, any text that starts like a number could be taken for JSON.
+	if v := bytes.TrimLeft(s, " \t\r\n"); len(v) > 0 && v[0] != '{' && v[0] != '[' && !json.Valid(v) {
+		return nil, "", errNotJSON
+	}
+
 	return s, extractJSON, nil
 }
 
-- 
2.43.0


From 2b0c13ec98f0b2b1bd6ae20ce976e537179e16d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 40/69] fix: keys report had no original key and type of
 constant columns

---
 flatjsonl/keys.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index f2f1a7e..23d14ba 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -703,7 +703,9 @@ func (p *Processor) prepareKeys() {
 
 		switch {
 		case !ok: // Can happen for meta keys like `const:X`.
+			ck.original = origKey
 			ck.replaced = p.prepareKey(origKey)
+			ck.t = TypeString
 		case ck.transposeDst == "":
 			ck.replaced = p.prepareKey(ck.original)
 		default:
-- 
2.43.0


From b5b544b3e743c0d9e470bfa0480b449822ec6e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:02 +0000
Subject: [PATCH 41/69] fix: JSON schema had no null type of nullable
 structures

---
 flatjsonl/flattener.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 0ce9b2a..e6fa00e 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -391,6 +391,10 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 	if k.t == TypeObject || k.t == TypeArray {
 		parentSchema.structure = append(parentSchema.structure, k.tt...)
 
+		if k.hasType(TypeNull) {
+			parentSchema.AddType(TypeNull)
+		}
+
 		return
 	}
 
-- 
2.43.0


From 1f253ece91e9f07a72f1e6ad47749754efe63e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 42/69] fix: failure to print key reports was ignored

---
 flatjsonl/processor.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 922cc53..5c66beb 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -1,6 +1,7 @@
 package flatjsonl
 
 import (
+	"bufio"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -342,20 +343,19 @@ func (p *Processor) WriteOutput() error {
 }
 
 func (p *Processor) maybeShowKeys() error {
+	// Writing failure is kept and returned by flush.
+	w := bufio.NewWriter(p.Stdout)
+
 	if p.f.ShowKeysFlat {
-		if _, err := fmt.Fprintln(p.Stdout, "keys:"); err != nil {
-			println(err.Error())
-		}
+		_, _ = fmt.Fprintln(w, "keys:")
 
 		for _, k := range p.flKeysList {
-			if _, err := fmt.Fprintln(p.Stdout, `"`+k+`",`); err != nil {
-				println(err.Error())
-			}
+			_, _ = fmt.Fprintln(w, `"`+k+`",`)
 		}
 	}
 
 	if p.f.ShowKeysInfo {
-		p.showKeysInfo()
+		p.showKeysInfo(w)
 	}
 
 	if p.f.ShowKeysHier {
@@ -369,7 +369,7 @@ func (p *Processor) maybeShowKeys() error {
 			return err
 		}
 
-		_, _ = fmt.Fprintln(p.Stdout, string(b))
+		_, _ = fmt.Fprintln(w, string(b))
 	}
 
 	if p.f.ShowJSONSchema {
@@ -381,14 +381,18 @@ func (p *Processor) maybeShowKeys() error {
 			return err
 		}
 
-		_, _ = fmt.Fprintln(p.Stdout, string(b))
+		_, _ = fmt.Fprintln(w, string(b))
+	}
+
+	if err := w.Flush(); err != nil {
+		return fmt.Errorf("failed to show keys: %w", err)
 	}
 
 	return nil
 }
 
-func (p *Processor) showKeysInfo() {
-	_, _ = fmt.Fprintln(p.Stdout, "keys info:")
+func (p *Processor) showKeysInfo(w io.Writer) {
+	_, _ = fmt.Fprintln(w, "keys info:")
 
 	markIncluded := len(p.cfg.IncludeKeys) > 0 || len(p.cfg.IncludeKeysRegex) > 0
 
@@ -416,7 +420,7 @@ func (p *Processor) showKeysInfo() {
 			line += ", EXTRACTED " + string(k.extractor.name())
 		}
 
-		_, _ = fmt.Fprintln(p.Stdout, strconv.Itoa(i)+":", line)
+		_, _ = fmt.Fprintln(w, strconv.Itoa(i)+":", line)
 	}
 
 	if markIncluded {
@@ -424,7 +428,7 @@ func (p *Processor) showKeysInfo() {
 			if _, included := p.includeKeys[k]; !included {
 				i++
 
-				_, _ = fmt.Fprintln(p.Stdout, strconv.Itoa(i)+":", k+", SKIPPED")
+				_, _ = fmt.Fprintln(w, strconv.Itoa(i)+":", k+", SKIPPED")
 			}
 		}
 	}
-- 
2.43.0


From f567304955861f131a7afe9c60ec200af86b07bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 43/69] fix: gzip input without the last trailer was taken for
 complete

---
 flatjsonl/reader.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index dc7150e..2af30dc 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -139,7 +139,7 @@ func (rd *Reader) session(in Input, task string) (sess *readSession, err error)
 	case "gzip":
 		cr.SetLines(nil)
 
-		gz, err := gzip.NewReader(sess.r)
+		gz, err := gzip.NewReader(gzipSource{bufio.NewReader(sess.r)})
 		if err != nil {
 			return nil, fmt.Errorf("failed to init gzip reader: %w", err)
 		}
@@ -183,6 +183,35 @@ func (rd *Reader) session(in Input, task string) (sess *readSession, err error)
 	return sess, nil
 }
 
+// gzipHeaderSize is the size of the fixed header that every gzip member starts with.
+const gzipHeaderSize = 10
+
+// gzipSource fails if the input ends anywhere but at the start of a gzip member,
+// gzip reader takes the end of input in place of a member trailer for the end of data.
+type gzipSource struct {
+	*bufio.Reader
+}
+
+// Read reads bytes, io.EOF is only returned when a new member is expected.
+func (s gzipSource) Read(p []byte) (int, error) {
+	n, err := s.Reader.Read(p)
+	if errors.Is(err, io.EOF) && len(p) != gzipHeaderSize {
+		err = io.ErrUnexpectedEOF
+	}
+
+	return n, err
+}
+
+// ReadByte reads a byte inside of a gzip member.
+func (s gzipSource) ReadByte() (byte, error) {
+	b, err := s.Reader.ReadByte()
+	if errors.Is(err, io.EOF) {
+		err = io.ErrUnexpectedEOF
+	}
+
+	return b, err
+}
+
 type syncWorker struct {
 	i        int
 	p        *fastjson.Parser
-- 
2.43.0


From 5bcece29674c97a6fa3257993686ca7838f072a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:04 +0000
Subject: [PATCH 44/69] fix: outputs were closed while lines before a reading
 failure were still written

---
 flatjsonl/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 2af30dc..9fedf1a 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -265,8 +265,8 @@ func (rd *Reader) Read(sess *readSession) error {
 			time.Sleep(110 * time.Millisecond)
 		}
 
-		if err := sess.scanner.Err(); err != nil {
-			return fmt.Errorf("scan failed: %w", err)
+		if sess.scanner.Err() != nil {
+			break
 		}
 
 		line := sess.scanner.Bytes()
-- 
2.43.0


From 640012ccb86a96b4395bdf359911356eb6bf479f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:41 +0000
Subject: [PATCH 45/69] fix: compress outputs with upper case names

-output takes report.CSV.GZ for a compressed CSV file, but the file was
written as plain text.
---
 flatjsonl/pg_dump_writer.go | 4 ++--
 flatjsonl/writer.go         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 1d28b3e..5984926 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -66,9 +66,9 @@ func NewPGDumpWriter(fn string, tableName string, p *Processor) (*PGDumpWriter,
 		}
 
 		switch {
-		case strings.HasSuffix(fn, ".gz"):
+		case strings.HasSuffix(strings.ToLower(fn), ".gz"):
 			c.f = gzip.NewWriter(c.f)
-		case strings.HasSuffix(fn, ".zst"):
+		case strings.HasSuffix(strings.ToLower(fn), ".zst"):
 			c.f, err = zstd.NewWriter(c.f, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
 			if err != nil {
 				return nil, err
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 948f583..e674a47 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -381,10 +381,10 @@ func newFileWriter(fn string) (*fileWriter, error) {
 		}
 
 		switch {
-		case strings.HasSuffix(fn, ".gz"):
+		case strings.HasSuffix(strings.ToLower(fn), ".gz"):
 			c.compressed = progress.NewCountingWriter(c.f)
 			c.f = gzip.NewWriter(c.compressed)
-		case strings.HasSuffix(fn, ".zst"):
+		case strings.HasSuffix(strings.ToLower(fn), ".zst"):
 			c.compressed = progress.NewCountingWriter(c.f)
 
 			c.f, err = zstd.NewWriter(c.compressed, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true), zstd.WithZeroFrames(true))
-- 
2.43.0


From e1dd79f13b2bd0408ed7e2ee4aa04690f09bd442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 46/69] fix: memory limit kept a goroutine and buffers of
 finished processor

---
 flatjsonl/processor.go | 11 +++++++----
 flatjsonl/reader.go    |  5 +++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 5c66beb..adf2743 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -246,8 +246,6 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 		}
 	}
 
-	go p.watchMemUsage()
-
 	return p, nil
 }
 
@@ -789,7 +787,8 @@ func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 	}
 }
 
-func (p *Processor) watchMemUsage() {
+// watchMemUsage checks memory usage until done.
+func (p *Processor) watchMemUsage(done <-chan struct{}) {
 	if p.f.MemLimit == 0 {
 		return
 	}
@@ -803,7 +802,11 @@ func (p *Processor) watchMemUsage() {
 			atomic.StoreInt64(&p.throttle, 1)
 		}
 
-		time.Sleep(100 * time.Millisecond)
+		select {
+		case <-done:
+			return
+		case <-time.After(100 * time.Millisecond):
+		}
 	}
 }
 
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 9fedf1a..203a1e8 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -255,6 +255,11 @@ func (rd *Reader) Read(sess *readSession) error {
 
 	rd.singleKeyPath, rd.singleKeyFlat = rd.Processor.singleKey()
 
+	done := make(chan struct{})
+	defer close(done)
+
+	go rd.Processor.watchMemUsage(done)
+
 	var n int64
 
 	for sess.scanner.Scan() {
-- 
2.43.0


From df1a7ad2c13ecd6be583957a4e7dd07b0e91d3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 47/69] fix: processors that share configuration overwrote keys
 of each other

---
 flatjsonl/processor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index adf2743..f47591b 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"regexp"
 	"runtime"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -122,6 +123,10 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 		IncrementalSpeed: true,
 	}
 
+	// Configuration can be shared, its lists are copied when extended.
+	cfg.IncludeKeys = slices.Clip(cfg.IncludeKeys)
+	cfg.KeepJSON = slices.Clip(cfg.KeepJSON)
+
 	if f.GetKey != "" {
 		cfg.IncludeKeys = append(cfg.IncludeKeys, f.GetKey)
 	}
-- 
2.43.0


From 77de28c1a89069db548f9808e2f1a627eb377c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 48/69] fix: SQLite output failed on quotes in table names

---
 flatjsonl/sqlite_writer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 17a0c33..d98adec 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -131,7 +131,7 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 	c.rowsTx++
 
 	tableName := tn
-	res := `INSERT INTO "` + tableName + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
+	res := `INSERT INTO "` + c.replacer.Replace(tableName) + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
 	part := 1
 
 	var args []any
@@ -149,7 +149,7 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 			args = nil
 			part++
 			tableName = tn + partSuffix + strconv.Itoa(part)
-			res = `INSERT INTO "` + tableName + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
+			res = `INSERT INTO "` + c.replacer.Replace(tableName) + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
 		}
 
 		if v.Type != TypeNull && v.Type != TypeAbsent {
@@ -197,7 +197,7 @@ func (c *SQLiteWriter) execTx(res string, args []any) error {
 
 func (c *SQLiteWriter) createTable(tn string, keys []flKey, isTransposed bool) error {
 	tableName := tn
-	createTable := `CREATE TABLE "` + tableName + `" (
+	createTable := `CREATE TABLE "` + c.replacer.Replace(tableName) + `" (
 `
 
 	if !isTransposed {
@@ -223,7 +223,7 @@ _seq_id integer,
 
 			part++
 			tableName = tn + partSuffix + strconv.Itoa(part)
-			createTable = `CREATE TABLE "` + tableName + `" (
+			createTable = `CREATE TABLE "` + c.replacer.Replace(tableName) + `" (
 `
 
 			if !isTransposed {
-- 
2.43.0


From f7cfdf3bcc490edf53947494b577321d570a1413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 49/69] fix: input and compressed output files were not closed

---
 flatjsonl/pg_dump_writer.go |  6 ++++--
 flatjsonl/reader.go         |  1 +
 flatjsonl/writer.go         | 23 +++++++++++++++++++++--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 5984926..5fbfc2c 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -67,12 +67,14 @@ func NewPGDumpWriter(fn string, tableName string, p *Processor) (*PGDumpWriter,
 
 		switch {
 		case strings.HasSuffix(strings.ToLower(fn), ".gz"):
-			c.f = gzip.NewWriter(c.f)
+			c.f = compressedFile{WriteCloser: gzip.NewWriter(c.f), file: c.f}
 		case strings.HasSuffix(strings.ToLower(fn), ".zst"):
-			c.f, err = zstd.NewWriter(c.f, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
+			zw, err := zstd.NewWriter(c.f, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true))
 			if err != nil {
 				return nil, err
 			}
+
+			c.f = compressedFile{WriteCloser: zw, file: c.f}
 		}
 	}
 
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 203a1e8..81f09b6 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -118,6 +118,7 @@ func (rd *Reader) session(in Input, task string) (sess *readSession, err error)
 		}()
 
 		r = fj
+		sess.fj = fj
 
 		switch {
 		case strings.HasSuffix(in.FileName, ".gz"):
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index e674a47..e3ff745 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -366,6 +366,23 @@ type fileWriter struct {
 	compressed   *progress.CountingWriter
 }
 
+// compressedFile closes compressor together with its file.
+type compressedFile struct {
+	io.WriteCloser
+	file io.Closer
+}
+
+// Close finishes compressed stream and closes file.
+func (c compressedFile) Close() error {
+	err := c.WriteCloser.Close()
+
+	if clErr := c.file.Close(); err == nil {
+		err = clErr
+	}
+
+	return err
+}
+
 func newFileWriter(fn string) (*fileWriter, error) {
 	var err error
 
@@ -383,14 +400,16 @@ func newFileWriter(fn string) (*fileWriter, error) {
 		switch {
 		case strings.HasSuffix(strings.ToLower(fn), ".gz"):
 			c.compressed = progress.NewCountingWriter(c.f)
-			c.f = gzip.NewWriter(c.compressed)
+			c.f = compressedFile{WriteCloser: gzip.NewWriter(c.compressed), file: c.f}
 		case strings.HasSuffix(strings.ToLower(fn), ".zst"):
 			c.compressed = progress.NewCountingWriter(c.f)
 
-			c.f, err = zstd.NewWriter(c.compressed, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true), zstd.WithZeroFrames(true))
+			zw, err := zstd.NewWriter(c.compressed, zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithLowerEncoderMem(true), zstd.WithZeroFrames(true))
 			if err != nil {
 				return nil, err
 			}
+
+			c.f = compressedFile{WriteCloser: zw, file: c.f}
 		}
 	}
 
-- 
2.43.0


From 14493e579db073e41f6a7a0f534227573e282a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:10 +0000
Subject: [PATCH 50/69] fix: -dbg-loop-input-size had no effect

---
 flatjsonl/app.go    | 2 ++
 flatjsonl/reader.go | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/app.go b/flatjsonl/app.go
index f433546..6aaf022 100644
--- a/flatjsonl/app.go
+++ b/flatjsonl/app.go
@@ -71,6 +71,8 @@ func Main() {
 		log.Fatal(err)
 	}
 
+	proc.inputs = inputs
+
 	if err := proc.Process(); err != nil {
 		log.Fatal(err)
 	}
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 81f09b6..ded53a1 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -467,9 +467,10 @@ func (l *LoopReader) Size() int64 {
 	return int64(l.BytesLimit)
 }
 
-// Reset resets the counter.
+// Reset resets the counter and rewinds the buffer.
 func (l *LoopReader) Reset() {
 	l.bytesRead = 0
+	_, _ = l.src.Seek(0, io.SeekStart) //nolint:errcheck // Start is always a valid position.
 }
 
 // Read implements io.Reader.
-- 
2.43.0


From 277b58f9e9d4ed2cfb68c6c36ea61894070dbc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 51/69] fix: flags after inputs were ignored together with
 inputs that follow

---
 flatjsonl/flags.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flatjsonl/flags.go b/flatjsonl/flags.go
index f6332a5..214fa0e 100644
--- a/flatjsonl/flags.go
+++ b/flatjsonl/flags.go
@@ -108,6 +108,13 @@ func (f *Flags) Parse() {
 	}
 
 	f.PrepareOutput()
+
+	// Parsing stops at the first input, flags after it would be ignored.
+	for _, arg := range flag.Args() {
+		if strings.HasPrefix(arg, "-") {
+			f.outputErr = fmt.Errorf("unexpected flag after input: %s", arg)
+		}
+	}
 }
 
 // PrepareOutput parses output flag.
-- 
2.43.0


From 78019013c0bc2094014e00a020f2d54727a5781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 52/69] fix: missing input was not a failure

---
 flatjsonl/app.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatjsonl/app.go b/flatjsonl/app.go
index 6aaf022..7c379ec 100644
--- a/flatjsonl/app.go
+++ b/flatjsonl/app.go
@@ -53,6 +53,10 @@ func Main() {
 	if len(inputs) == 0 {
 		flag.Usage()
 
+		if flag.NFlag() > 0 {
+			log.Fatal("input is missing")
+		}
+
 		return
 	}
 
-- 
2.43.0


From 686ff671055e862f18bc52fa01e66dd2b84d5bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:35 +0000
Subject: [PATCH 53/69] fix: csvequals without two files reported success

---
 cmd/csvequals/main.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/csvequals/main.go b/cmd/csvequals/main.go
index 00d3a68..ec80615 100644
--- a/cmd/csvequals/main.go
+++ b/cmd/csvequals/main.go
@@ -20,8 +20,7 @@ func main() {
 	if flag.NArg() < 2 {
 		fmt.Println("Usage: csvequals <file1.csv> <file2.csv>")
 		flag.PrintDefaults()
-
-		return
+		os.Exit(2)
 	}
 
 	fn1 := flag.Arg(0)
-- 
2.43.0


From 86ce7876d63d4355066b9eec206d263e51ae8f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:27 +0000
Subject: [PATCH 54/69] fix: prefix pattern took the brace of a line that is
 just that for a prefix

---
 flatjsonl/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index ded53a1..47c4995 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -412,7 +412,8 @@ func (rd *Reader) prefixedLine(seq int64, line []byte, walkFn func(seq int64, fl
 		}
 	}
 
-	if rd.MatchPrefix != nil {
+	// There is nothing before the brace of a line that starts with it.
+	if rd.MatchPrefix != nil && pos != 0 {
 		pref := line
 
 		if pos > 0 {
-- 
2.43.0


From 2cc9ca067e4763d383452ce510d50fa2795aaec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:04 +0000
Subject: [PATCH 55/69] fix: format of a key that matches several extraction
 patterns was random

---
 flatjsonl/extract.go   |  7 +++++++
 flatjsonl/keys.go      | 12 ++++++------
 flatjsonl/processor.go | 15 ++++++++++-----
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/flatjsonl/extract.go b/flatjsonl/extract.go
index 74c1508..ad767b1 100644
--- a/flatjsonl/extract.go
+++ b/flatjsonl/extract.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"errors"
+	"regexp"
 )
 
 var errNotJSON = errors.New("not a JSON")
@@ -37,6 +38,12 @@ func (e extract) Extractor() extractor {
 	return nil
 }
 
+// regexExtractor is an extractor for the keys that match expression.
+type regexExtractor struct {
+	regex     *regexp.Regexp
+	extractor extractor
+}
+
 // extractor defines extractor function.
 type extractor interface {
 	name() extract
diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 23d14ba..59851ac 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -104,9 +104,9 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 		}
 	}
 
-	for r, x := range p.extractRegex {
-		if r.MatchString(key) {
-			k.extractor = x
+	for _, x := range p.extractRegex {
+		if x.regex.MatchString(key) {
+			k.extractor = x.extractor
 
 			break
 		}
@@ -495,9 +495,9 @@ func (p *Processor) addUnscannedKey(key string) {
 		canonical: p.ck(key),
 	}
 
-	for r, x := range p.extractRegex {
-		if r.MatchString(key) {
-			k.extractor = x
+	for _, x := range p.extractRegex {
+		if x.regex.MatchString(key) {
+			k.extractor = x.extractor
 
 			break
 		}
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index f47591b..7d37117 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"maps"
 	"os"
 	"regexp"
 	"runtime"
@@ -43,7 +44,7 @@ type Processor struct {
 	includeRegex []*regexp.Regexp
 	excludeRegex []*regexp.Regexp
 	replaceRegex map[*regexp.Regexp]string
-	extractRegex map[*regexp.Regexp]extractor
+	extractRegex []regexExtractor
 	constVals    map[int]string
 
 	replaceKeys  map[string]string
@@ -204,7 +205,6 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 	}
 
 	p.replaceRegex = map[*regexp.Regexp]string{}
-	p.extractRegex = map[*regexp.Regexp]extractor{}
 
 	for _, reg := range p.cfg.ExcludeKeysRegex {
 		r, err := regex(reg)
@@ -233,16 +233,21 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 		p.replaceRegex[r] = rep
 	}
 
-	for reg, x := range p.cfg.ExtractValuesRegex {
+	// Key can match multiple expressions, first one is used.
+	for _, reg := range slices.Sorted(maps.Keys(p.cfg.ExtractValuesRegex)) {
 		r, err := regex(reg)
 		if err != nil {
 			return nil, fmt.Errorf("include keys: %w", err)
 		}
 
-		p.extractRegex[r] = x.Extractor()
-		if p.extractRegex[r] == nil {
+		x := p.cfg.ExtractValuesRegex[reg]
+
+		e := x.Extractor()
+		if e == nil {
 			return nil, fmt.Errorf("extract values: unexpected format %q", x)
 		}
+
+		p.extractRegex = append(p.extractRegex, regexExtractor{regex: r, extractor: e})
 	}
 
 	if cfg.OutputTimezone != "" {
-- 
2.43.0


From 3a5d368aecb7837e8844a51e034639df56757e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 56/69] fix: name of a key that is replaced in several
 spellings was random

---
 flatjsonl/keys.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 59851ac..533203f 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -3,7 +3,9 @@ package flatjsonl
 import (
 	"errors"
 	"fmt"
+	"maps"
 	"regexp"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -659,7 +661,9 @@ func (p *Processor) prepareKeys() {
 	p.replaceByKey = make(map[string]string)
 	p.limitedKeys = make(map[string]string)
 
-	for k, r := range p.cfg.ReplaceKeys {
+	// There can be multiple spellings of a key that is not case-sensitive, last one is used.
+	for _, k := range slices.Sorted(maps.Keys(p.cfg.ReplaceKeys)) {
+		r := p.cfg.ReplaceKeys[k]
 		mk := p.ck(k)
 
 		p.replaceByKey[r] = mk
-- 
2.43.0


From 5f59c610d0e38de510d0e920983912d05f06366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:23 +0000
Subject: [PATCH 57/69] fix: explicitly included keys lost values with other
 spelling of case-insensitive key

---
 flatjsonl/keys.go      |  8 +++++++-
 flatjsonl/processor.go | 36 ++++++++++++++++++++++++++++++++----
 flatjsonl/reader.go    |  5 +++--
 3 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 533203f..54e0ef1 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -506,10 +506,16 @@ func (p *Processor) addUnscannedKey(key string) {
 	}
 
 	p.flKeys.Store(pk, k)
+	p.canonicalKeys[k.canonical] = k
 }
 
 func (p *Processor) flKeysInit() {
-	for key := range p.includeKeys {
+	included := make([]string, len(p.includeKeys))
+	for key, i := range p.includeKeys {
+		included[i] = key
+	}
+
+	for _, key := range included {
 		if strings.HasPrefix(key, "const:") {
 			continue
 		}
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 7d37117..7698e5d 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -522,6 +523,8 @@ func (p *Processor) iterateForWriters() error {
 	pkIndex := make(map[uint64]int)
 	pkDst := make(map[uint64]string)
 	pkTimeFmt := make(map[uint64]string)
+	pkSpelling := make(map[uint64]uint64)
+	h := newHasher()
 
 	p.flKeys.Range(func(key uint64, value flKey) bool {
 		if i, ok := includeKeys[value.canonical]; ok {
@@ -536,10 +539,15 @@ func (p *Processor) iterateForWriters() error {
 			pkTimeFmt[key] = f
 		}
 
+		if p.canonicalKeys[value.canonical].original == value.original {
+			pkSpelling[h.hashBytes([]byte(value.canonical))] = key
+		}
+
 		return true
 	})
 
 	wi := newWriteIterator(p, pkIndex, pkDst, pkTimeFmt)
+	wi.pkSpelling = pkSpelling
 
 	if err := p.w.SetupKeys(p.keys); err != nil {
 		return err
@@ -668,6 +676,7 @@ type writeIterator struct {
 	pkIndex    map[uint64]int
 	pkDst      map[uint64]string
 	pkTimeFmt  map[uint64]string
+	pkSpelling map[uint64]uint64
 	p          *Processor
 	fieldLimit int
 	outTimeFmt string
@@ -704,7 +713,7 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 		}
 
 		l, _ := wi.pending.Load(seq)
-		pk := l.h.hashBytes(flatPath)
+		pk := wi.pk(l.h, flatPath)
 		k, _ := wi.p.flKeys.Load(pk)
 
 		wi.setValue(Value{
@@ -716,7 +725,7 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 	}
 	w.FnNumber = func(seq int64, flatPath []byte, pl int, _ []string, value float64, raw []byte) {
 		l, _ := wi.pending.Load(seq)
-		pk := l.h.hashBytes(flatPath)
+		pk := wi.pk(l.h, flatPath)
 
 		wi.setValue(Value{
 			Type:      TypeFloat,
@@ -726,7 +735,7 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 	}
 	w.FnBool = func(seq int64, flatPath []byte, pl int, _ []string, value bool) {
 		l, _ := wi.pending.Load(seq)
-		pk := l.h.hashBytes(flatPath)
+		pk := wi.pk(l.h, flatPath)
 
 		wi.setValue(Value{
 			Type: TypeBool,
@@ -735,7 +744,7 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 	}
 	w.FnNull = func(seq int64, flatPath []byte, pl int, _ []string) {
 		l, _ := wi.pending.Load(seq)
-		pk := l.h.hashBytes(flatPath)
+		pk := wi.pk(l.h, flatPath)
 
 		wi.setValue(Value{
 			Type: TypeNull,
@@ -743,6 +752,25 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 	}
 }
 
+// pk returns hash of the key, or of its known spelling if the key was not scanned and is not case-sensitive.
+func (wi *writeIterator) pk(h *hasher, flatPath []byte) uint64 {
+	pk := h.hashBytes(flatPath)
+
+	if wi.p.f.CaseSensitiveKeys {
+		return pk
+	}
+
+	if _, ok := wi.p.flKeys.Load(pk); ok {
+		return pk
+	}
+
+	if known, ok := wi.pkSpelling[h.hashBytes(bytes.ToLower(flatPath))]; ok {
+		return known
+	}
+
+	return pk
+}
+
 func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 	i, ok := wi.pkIndex[pk]
 	if !ok {
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 47c4995..bd4b977 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -380,8 +380,9 @@ func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
 			rd.OnError(fmt.Errorf("malformed JSON at line %d: %w: %s", seq, err, string(line)))
 		}
 	} else {
-		// Key with multiple segments may be missing because of dots in property names, full walk finds those.
-		if rd.singleKeyPath == nil || (!w.walker.GetKey(seq, rd.singleKeyFlat, rd.singleKeyPath, pv) && len(rd.singleKeyPath) > 1) {
+		// Key may be missing because of dots in property names or other spelling, full walk finds those.
+		if rd.singleKeyPath == nil || (!w.walker.GetKey(seq, rd.singleKeyFlat, rd.singleKeyPath, pv) &&
+			(len(rd.singleKeyPath) > 1 || !rd.Processor.f.CaseSensitiveKeys)) {
 			w.walker.WalkFastJSON(seq, flatPath, 0, path, pv)
 		}
 	}
-- 
2.43.0


From c9db9d672827e4d415a382e8a4308661efab523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 58/69] fix: time format of a key did not apply to its other
 spellings

---
 flatjsonl/processor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 7698e5d..ca0e26d 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -524,8 +524,13 @@ func (p *Processor) iterateForWriters() error {
 	pkDst := make(map[uint64]string)
 	pkTimeFmt := make(map[uint64]string)
 	pkSpelling := make(map[uint64]uint64)
+	parseTime := make(map[string]string)
 	h := newHasher()
 
+	for _, k := range slices.Sorted(maps.Keys(p.cfg.ParseTime)) {
+		parseTime[p.ck(k)] = p.cfg.ParseTime[k]
+	}
+
 	p.flKeys.Range(func(key uint64, value flKey) bool {
 		if i, ok := includeKeys[value.canonical]; ok {
 			pkIndex[key] = i
@@ -537,6 +542,8 @@ func (p *Processor) iterateForWriters() error {
 
 		if f, ok := p.cfg.ParseTime[value.original]; ok {
 			pkTimeFmt[key] = f
+		} else if f, ok := parseTime[value.canonical]; ok {
+			pkTimeFmt[key] = f
 		}
 
 		if p.canonicalKeys[value.canonical].original == value.original {
-- 
2.43.0


From 7d23a4de6991b9218aa8d15bcb0e336a06e102c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:07 +0000
Subject: [PATCH 59/69] fix: line limit does not overflow with an offset

---
 flatjsonl/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index bd4b977..ffcb48d 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -314,7 +314,7 @@ func (rd *Reader) Read(sess *readSession) error {
 			break
 		}
 
-		if rd.MaxLines > 0 && rd.MaxLines+rd.OffsetLines <= n {
+		if rd.MaxLines > 0 && n-rd.OffsetLines >= rd.MaxLines {
 			break
 		}
 	}
-- 
2.43.0


From 1a44193901b8d87c33b09b69e4b03fdaf5834d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:17 +0000
Subject: [PATCH 60/69] fix: number that is too small for a float is not a zero

---
 flatjsonl/keys.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 54e0ef1..9d7976b 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -1,6 +1,7 @@
 package flatjsonl
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"maps"
@@ -359,7 +360,7 @@ func (p *Processor) scanAvailableKeys() error {
 					if _, err := strconv.ParseInt(string(raw), 10, 64); err == nil {
 						p.scanKey(pk, parent, path, TypeInt, value == 0)
 					} else {
-						p.scanKey(pk, parent, path, TypeFloat, value == 0)
+						p.scanKey(pk, parent, path, TypeFloat, value == 0 && isZeroNumber(raw))
 					}
 				}
 				w.FnBool = func(_ int64, flatPath []byte, pl int, path []string, value bool) {
@@ -390,6 +391,13 @@ func (p *Processor) scanAvailableKeys() error {
 	return nil
 }
 
+// isZeroNumber checks original spelling of a number, value that is too small for float64 is not a zero.
+func isZeroNumber(raw []byte) bool {
+	mantissa, _, _ := bytes.Cut(bytes.ToLower(raw), []byte("e"))
+
+	return !bytes.ContainsAny(mantissa, "123456789")
+}
+
 func (p *Processor) prepareScannedKeys() {
 	var jsonKeys map[string]bool
 	if len(p.cfg.KeepJSON) > 0 {
-- 
2.43.0


From ef50f714a110b237c5ffeca3c5ed1028a52b11e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:02 +0000
Subject: [PATCH 61/69] fix: PostgreSQL timestamp column could have values that
 are not times

---
 flatjsonl/keys.go           | 15 +++++++++++++++
 flatjsonl/pg_dump_writer.go |  2 +-
 flatjsonl/writer.go         |  1 +
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 9d7976b..ab86f37 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -30,6 +30,7 @@ type flKey struct {
 	transposeTrimmed string
 	extractor        extractor
 	parent           uint64
+	isTime           bool // All values of the column are subject to ParseTime.
 }
 
 func (k *flKey) UpdateType(u Type) {
@@ -41,6 +42,11 @@ func (k *flKey) UpdateType(u Type) {
 	k.t = k.t.Update(u)
 }
 
+// hasOnlyStrings tells that key had no scalar values of other types.
+func (k *flKey) hasOnlyStrings() bool {
+	return !k.hasType(TypeInt) && !k.hasType(TypeFloat) && !k.hasType(TypeBool) && !k.hasType(TypeJSON)
+}
+
 func (k *flKey) hasType(u Type) bool {
 	for _, t := range k.tt {
 		if t == u {
@@ -556,6 +562,10 @@ func (p *Processor) flKeysInit() {
 		v.isZero = v.isZero && value.isZero
 		v.t = v.t.Update(value.t)
 
+		for _, t := range value.tt {
+			v.UpdateType(t)
+		}
+
 		p.canonicalKeys[value.canonical] = v
 
 		return true
@@ -730,6 +740,10 @@ func (p *Processor) prepareKeys() {
 			ck.replaced = p.prepareKey(ck.transposeTrimmed)
 		}
 
+		if _, ok := p.cfg.ParseTime[ck.original]; ok {
+			ck.isTime = ck.hasOnlyStrings()
+		}
+
 		p.keys[v.idx] = ck
 	}
 
@@ -741,6 +755,7 @@ func (p *Processor) prepareKeys() {
 		if pk.transposeDst == "" {
 			if j, ok := keyExists[pk.replaced]; ok {
 				keys[j].UpdateType(pk.t)
+				keys[j].isTime = keys[j].isTime && pk.isTime && p.cfg.ConcatDelimiter == nil
 
 				if p.cfg.ConcatDelimiter != nil {
 					keys[j].UpdateType(TypeString)
diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 5fbfc2c..5adf535 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -289,7 +289,7 @@ func (c *PGDumpWriter) createTable(tn string, keys []flKey, isTransposed bool) e
 			tp = " FLOAT8"
 		case TypeString:
 			tp = " VARCHAR"
-			if _, ok := c.p.cfg.ParseTime[k.original]; ok {
+			if k.isTime {
 				tp = " TIMESTAMP"
 			}
 		default:
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index e3ff745..1efec88 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -206,6 +206,7 @@ func (b *baseWriter) initFilteredKeys() {
 	for o, t := range b.transposedMapping {
 		k := b.filteredKeys[t]
 		k.UpdateType(b.keys[o].t)
+		k.isTime = k.isTime && b.keys[o].isTime
 		b.filteredKeys[t] = k
 	}
 }
-- 
2.43.0


From 960d3f521189ebb255560134f036ee2ffa6ca08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:28 +0000
Subject: [PATCH 62/69] fix: keep type of JSON columns when types of spellings
 are merged

---
 flatjsonl/keys.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index ab86f37..a7ff256 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -563,7 +563,9 @@ func (p *Processor) flKeysInit() {
 		v.t = v.t.Update(value.t)
 
 		for _, t := range value.tt {
-			v.UpdateType(t)
+			if !v.hasType(t) {
+				v.tt = append(v.tt[:len(v.tt):len(v.tt)], t)
+			}
 		}
 
 		p.canonicalKeys[value.canonical] = v
-- 
2.43.0


From 30e195a031008347e8c8b291afbbcc3bb6fd6fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:11 +0000
Subject: [PATCH 63/69] fix: schema of a deep document could be invalid JSON

---
 flatjsonl/processor.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index ca0e26d..b53778f 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -351,6 +351,26 @@ func (p *Processor) WriteOutput() error {
 	return nil
 }
 
+// marshalIndent makes JSON with short lines.
+func marshalIndent(v any) ([]byte, error) {
+	b, err := assertjson.MarshalIndentCompact(v, "", " ", 120)
+	// Empty values that are too deep for the length of line are not closed.
+	if err != nil || json.Valid(b) {
+		return b, err
+	}
+
+	buf := bytes.NewBuffer(nil)
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	enc.SetIndent("", " ")
+
+	if err := enc.Encode(v); err != nil {
+		return nil, err
+	}
+
+	return bytes.TrimSpace(buf.Bytes()), nil
+}
+
 func (p *Processor) maybeShowKeys() error {
 	// Writing failure is kept and returned by flush.
 	w := bufio.NewWriter(p.Stdout)
@@ -373,7 +393,7 @@ func (p *Processor) maybeShowKeys() error {
 			hier = root["."]
 		}
 
-		b, err := assertjson.MarshalIndentCompact(hier, "", " ", 120)
+		b, err := marshalIndent(hier)
 		if err != nil {
 			return err
 		}
@@ -385,7 +405,7 @@ func (p *Processor) maybeShowKeys() error {
 		p.jsonSchema.Title = "Root"
 		p.jsonSchema.finalize()
 
-		b, err := assertjson.MarshalIndentCompact(p.jsonSchema, "", " ", 120)
+		b, err := marshalIndent(p.jsonSchema)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 6bb178320f0e864cf1378ba2f899736adbaf896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:01 +0000
Subject: [PATCH 64/69] fix: type of a key is not changed by a structure in its
 other spelling

---
 flatjsonl/keys.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index a7ff256..9b0b8d9 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -560,7 +560,10 @@ func (p *Processor) flKeysInit() {
 		}
 
 		v.isZero = v.isZero && value.isZero
-		v.t = v.t.Update(value.t)
+		// Other spelling can be an object or an array, they are not values of the column.
+		if value.t != TypeObject && value.t != TypeArray {
+			v.t = v.t.Update(value.t)
+		}
 
 		for _, t := range value.tt {
 			if !v.hasType(t) {
-- 
2.43.0


From bab0a8b2578f86139fd53e55e3252d0329221f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:14 +0000
Subject: [PATCH 65/69] fix: looping over an empty file is an error, not
 endless recursion

---
 flatjsonl/reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index ffcb48d..42fb539 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -453,6 +453,11 @@ func LoopReaderFromFile(fn string, bytesLimit int) (*LoopReader, error) {
 		return nil, err
 	}
 
+	// There is nothing to repeat.
+	if len(f) == 0 {
+		return nil, fmt.Errorf("%s: %w", fn, errEmptyFile)
+	}
+
 	return &LoopReader{
 		BytesLimit: bytesLimit,
 		src:        bytes.NewReader(f),
-- 
2.43.0


From 11228c9a32de16334526b3af4dce6dd512b419c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 66/69] fix: csvequals compares all of the columns that have
 one name

---
 cmd/csvequals/main.go | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/cmd/csvequals/main.go b/cmd/csvequals/main.go
index ec80615..9b5df8b 100644
--- a/cmd/csvequals/main.go
+++ b/cmd/csvequals/main.go
@@ -14,6 +14,24 @@ import (
 	"github.com/bool64/progress"
 )
 
+// column is the n-th of the columns with the same name.
+type column struct {
+	name string
+	n    int
+}
+
+func columns(header []string) []column {
+	cols := make([]column, 0, len(header))
+	count := make(map[string]int)
+
+	for _, name := range header {
+		cols = append(cols, column{name: name, n: count[name]})
+		count[name]++
+	}
+
+	return cols
+}
+
 func main() {
 	flag.Parse()
 
@@ -64,9 +82,9 @@ func main() {
 	c2.ReuseRecord = true
 
 	var (
-		keys1, keys2 []string
-		m1           = map[string]string{}
-		m2           = map[string]string{}
+		keys1, keys2 []column
+		m1           = map[column]string{}
+		m2           = map[column]string{}
 	)
 
 	l := 0
@@ -115,15 +133,15 @@ func main() {
 		}
 
 		if keys1 == nil {
-			keys1 = append(keys1, r1...)
-			keys2 = append(keys2, r2...)
+			keys1 = columns(r1)
+			keys2 = columns(r2)
 
 			for _, k := range keys1 {
-				m1[k] = k
+				m1[k] = k.name
 			}
 
 			for _, k := range keys2 {
-				m2[k] = k
+				m2[k] = k.name
 			}
 
 			if diff := mapDiff(m1, m2); len(diff) > 0 {
@@ -154,24 +172,24 @@ func main() {
 	println("files are equal")
 }
 
-func mapDiff(m1, m2 map[string]string) []string {
+func mapDiff(m1, m2 map[column]string) []string {
 	var diff []string //nolint:prealloc
 
 	for k, v1 := range m1 {
 		v2, ok := m2[k]
 		if !ok {
-			diff = append(diff, "missing "+k+":"+v1+" in file2")
+			diff = append(diff, "missing "+k.name+":"+v1+" in file2")
 		}
 
 		if v1 != v2 {
-			diff = append(diff, "changed "+k+" // "+v1+" // "+v2)
+			diff = append(diff, "changed "+k.name+" // "+v1+" // "+v2)
 		}
 
 		delete(m2, k)
 	}
 
 	for k, v2 := range m2 {
-		diff = append(diff, "missing "+k+":"+v2+" in file1")
+		diff = append(diff, "missing "+k.name+":"+v2+" in file1")
 	}
 
 	return diff
-- 
2.43.0


From 520978a9d513007942248c87fc5ec208d5f93465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:20 +0000
Subject: [PATCH 67/69] fix: SQLite output with a question mark in its name was
 written to another file

---
 flatjsonl/sqlite_writer.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index d98adec..ff849f8 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -28,7 +28,7 @@ type SQLiteWriter struct {
 func NewSQLiteWriter(fn string, tableName string, p *Processor) (*SQLiteWriter, error) {
 	var err error
 
-	db, err := sql.Open("sqlite", fn)
+	db, err := sql.Open("sqlite", sqliteDSN(fn))
 	if err != nil {
 		return nil, err
 	}
@@ -53,6 +53,20 @@ func NewSQLiteWriter(fn string, tableName string, p *Processor) (*SQLiteWriter,
 	return c, nil
 }
 
+// sqliteDSN makes data source name, driver takes a part of plain file name after ? for parameters.
+func sqliteDSN(fn string) string {
+	if !strings.Contains(fn, "?") || strings.HasPrefix(fn, "file:") {
+		return fn
+	}
+
+	dsn := "file:"
+	if strings.HasPrefix(fn, "/") {
+		dsn = "file://"
+	}
+
+	return dsn + strings.NewReplacer("%", "%25", "?", "%3f", "#", "%23").Replace(fn)
+}
+
 // SetupKeys creates tables.
 func (c *SQLiteWriter) SetupKeys(keys []flKey) error {
 	c.b = &baseWriter{}
-- 
2.43.0


From 8a2dfe0ad7e72fc1c34e3a3c80fb4a2376e2b84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:22 +0000
Subject: [PATCH 68/69] fix: PostgreSQL dump panicked without a maximum of
 columns

---
 flatjsonl/pg_dump_writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 5adf535..3ca1e82 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -48,6 +48,10 @@ type csvCopier struct {
 func NewPGDumpWriter(fn string, tableName string, p *Processor) (*PGDumpWriter, error) {
 	var err error
 
+	if p.f.SQLMaxCols == 0 {
+		p.f.SQLMaxCols = 500
+	}
+
 	c := &PGDumpWriter{
 		fn:         fn,
 		tableName:  tableName,
-- 
2.43.0


From 66c9af64dcbb88306ab00a88a004d0dfbc9f264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:09 +0000
Subject: [PATCH 69/69] fix: listed keys were not transposed when keys are not
 scanned

---
 flatjsonl/keys.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 9b0b8d9..9157bdd 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -103,15 +103,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	k.canonical = p.ck(key)
 	k.parent = parent
 
-	transposePrefix := ""
-
-	for tk, dst := range p.cfg.Transpose {
-		// The longest prefix wins.
-		if len(tk) >= len(transposePrefix) && strings.HasPrefix(k.original, strings.TrimSuffix(tk, ".")+".") {
-			transposePrefix = tk
-			scanTransposedKey(dst, tk, &k)
-		}
-	}
+	p.transposeKey(&k)
 
 	for _, x := range p.extractRegex {
 		if x.regex.MatchString(key) {
@@ -201,6 +193,18 @@ func (p *Processor) collectKeyCardinality(k flKey) {
 	}
 }
 
+func (p *Processor) transposeKey(k *flKey) {
+	transposePrefix := ""
+
+	for tk, dst := range p.cfg.Transpose {
+		// The longest prefix wins.
+		if len(tk) >= len(transposePrefix) && strings.HasPrefix(k.original, strings.TrimSuffix(tk, ".")+".") {
+			transposePrefix = tk
+			scanTransposedKey(dst, tk, k)
+		}
+	}
+}
+
 func scanTransposedKey(dst string, tk string, k *flKey) {
 	trimmed := strings.TrimPrefix(k.original, tk)
 	if len(trimmed) == 0 {
@@ -511,6 +515,8 @@ func (p *Processor) addUnscannedKey(key string) {
 		canonical: p.ck(key),
 	}
 
+	p.transposeKey(&k)
+
 	for _, x := range p.extractRegex {
 		if x.regex.MatchString(key) {
 			k.extractor = x.extractor
-- 
2.43.0

