From c6daaa88c446bc8b6b38b0b6d2bb44f52ba6db2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 01/67] fix: copying a nil result to a caller's variable
 panicked

---
 runtime/core/backend/reflect.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/runtime/core/backend/reflect.go b/runtime/core/backend/reflect.go
index 314303c..5ebf31b 100644
--- a/runtime/core/backend/reflect.go
+++ b/runtime/core/backend/reflect.go
@@ -27,6 +27,17 @@ func CopyResult(src any, dst any) error {
 	dst_val := reflect.Indirect(dst_ptr)
 	src_val := reflect.ValueOf(src)
 
+	if !src_val.IsValid() {
+		// src is an untyped nil, which only types that have a nil value can receive
+		switch dst_val.Kind() {
+		case reflect.Interface, reflect.Pointer, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
+			dst_val.SetZero()
+			return nil
+		default:
+			return errors.Errorf("unable to copy nil to type %v", dst_val.Type())
+		}
+	}
+
 	if dst_val.Kind() == reflect.Slice && src_val.Kind() == reflect.Slice {
 		// Special handling for slices: we want to support copying []any to []mytype
 		new_dst := reflect.MakeSlice(dst_val.Type(), src_val.Len(), src_val.Len())
-- 
2.43.0


From 048cc3e8ed01771226071d06de96700b1b521da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 02/67] fix: simplecache Get raced with writers and concurrent
 Incr lost increments

---
 runtime/plugins/simplecache/cache.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/runtime/plugins/simplecache/cache.go b/runtime/plugins/simplecache/cache.go
index 176caea..b46d3ec 100644
--- a/runtime/plugins/simplecache/cache.go
+++ b/runtime/plugins/simplecache/cache.go
@@ -31,6 +31,8 @@ func (cache *SimpleCache) Put(ctx context.Context, key string, value interface{}
 }
 
 func (cache *SimpleCache) Get(ctx context.Context, key string, val interface{}) (bool, error) {
+	cache.RLock()
+	defer cache.RUnlock()
 	if v, exists := cache.values[key]; exists {
 		return true, backend.CopyResult(v, val)
 	}
@@ -73,11 +75,15 @@ func (cache *SimpleCache) Delete(ctx context.Context, key string) error {
 }
 
 func (cache *SimpleCache) Incr(ctx context.Context, key string) (int64, error) {
+	cache.Lock()
+	defer cache.Unlock()
 	cur := int64(0)
-	_, err := cache.Get(ctx, key, &cur)
-	if err != nil {
-		return cur, err
+	if v, exists := cache.values[key]; exists {
+		if err := backend.CopyResult(v, &cur); err != nil {
+			return cur, err
+		}
 	}
 	cur += 1
-	return cur, cache.Put(ctx, key, cur)
+	cache.values[key] = cur
+	return cur, nil
 }
-- 
2.43.0


From 8605a8c88560197a6119fb11af759a9b9ae3f577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 03/67] fix: clientpool callers kept waiting when a failed
 construction freed capacity

---
 runtime/plugins/clientpool/clientpool.go | 27 ++++++++++++------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/runtime/plugins/clientpool/clientpool.go b/runtime/plugins/clientpool/clientpool.go
index d5c2320..ff1ec38 100644
--- a/runtime/plugins/clientpool/clientpool.go
+++ b/runtime/plugins/clientpool/clientpool.go
@@ -15,6 +15,7 @@ import (
 // Pop and returned with Push.
 type ClientPool[T any] struct {
 	clients   chan T
+	slots     chan struct{} // capacity that is not in use; a token is taken to build a client
 	build     func() (T, error)
 	capacity  int64
 	size      int64
@@ -30,12 +31,16 @@ type ClientPool[T any] struct {
 func NewClientPool[T any](capacity int, build func() (T, error)) *ClientPool[T] {
 	pool := &ClientPool[T]{
 		clients:   make(chan T, capacity),
+		slots:     make(chan struct{}, capacity),
 		build:     build,
 		capacity:  int64(capacity),
 		size:      0,
 		available: 0,
 		waiting:   0,
 	}
+	for i := 0; i < capacity; i++ {
+		pool.slots <- struct{}{}
+	}
 	return pool
 }
 
@@ -55,25 +60,21 @@ func (pool *ClientPool[T]) Pop(ctx context.Context) (client T, err error) {
 	default:
 	}
 
-	// If the pool isn't at capacity, we can instantiate a new client
-	for curSize := pool.size; curSize < pool.capacity; {
-		if atomic.CompareAndSwapInt64(&pool.size, curSize, curSize+1) {
-			client, err = pool.build()
-			if err != nil {
-				atomic.AddInt64(&pool.size, -1)
-			}
-			return
-		}
-		curSize = pool.size
-	}
-
-	// Pool is at capacity; wait to reuse an existing client
+	// If the pool isn't at capacity, we can instantiate a new client. Otherwise wait to
+	// reuse an existing client, or for the capacity of a client that could not be built.
 	atomic.AddInt64(&pool.waiting, 1)
 	select {
 	case <-ctx.Done():
 		err = errors.New("timeout before client was available")
 	case client = <-pool.clients:
 		atomic.AddInt64(&pool.available, -1)
+	case <-pool.slots:
+		atomic.AddInt64(&pool.size, 1)
+		client, err = pool.build()
+		if err != nil {
+			atomic.AddInt64(&pool.size, -1)
+			pool.slots <- struct{}{}
+		}
 	}
 	atomic.AddInt64(&pool.waiting, -1)
 	return
-- 
2.43.0


From 3a474e83f96ae51c59f3c4e3962e343dddd57047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 04/67] fix: simplenosqldb $exists, $ne, $eq and null
 conditions did not match as in mongodb

---
 .../simplenosqldb/query/parsefilter.go        | 105 +++++++++++-------
 1 file changed, 62 insertions(+), 43 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index 8052384..438bb93 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -169,28 +169,37 @@ func parseFilterCondition(e bson.E) (Filter, error) {
 				return Lookup(e.Key, filter), err
 			}
 
-			// $exists: false is a special case
-			if filter, err := parseExistsOperators(e.Key, v); err != nil || filter != nil {
-				return filter, err
-			}
-
 			// We have regular value operators
-			filter, err := parseValueOperators(v)
-			return Lookup(e.Key, Broadcast(filter)), err
+			return parseFieldOperators(e.Key, v)
 		}
 	case bson.A:
-		{
-			// Exact match an array value
-			filter, err := parseArrayValues(v)
-			return Lookup(e.Key, filter), err
-		}
+		return parseFieldValue(e.Key, v)
 	case bson.E:
 		return nil, errors.Errorf("condition values should be specified using bson.D not bson.E")
 	case bson.M:
 		return nil, errors.Errorf("condition values should be specified using bson.D not bson.M")
 	default:
-		return Lookup(e.Key, Broadcast(Equals(v))), nil
+		return parseFieldValue(e.Key, v)
+	}
+}
+
+/*
+Matches documents whose field at the selector has the value, or is an array that contains it
+*/
+func parseFieldValue(selector string, value any) (Filter, error) {
+	filter, err := parseValue(value)
+	if err != nil {
+		return nil, err
+	}
+	if _, isA := value.(bson.A); isA {
+		// Exact match an array value
+		return Lookup(selector, filter), nil
+	}
+	if value == nil {
+		// A missing field counts as null
+		return Or(Lookup(selector, Broadcast(filter)), Not(Lookup(selector, Exists()))), nil
 	}
+	return Lookup(selector, Broadcast(filter)), nil
 }
 
 /*
@@ -299,33 +308,16 @@ func parseArrayOperator(e bson.E) (Filter, error) {
 	return nil, nil
 }
 
-// $exists: false is a special case that can also ignore all other operators
-// This only returns a filter for $exists: false; not $exists: true
-func parseExistsOperators(key string, d bson.D) (Filter, error) {
-	for _, e := range d {
-		if e.Key == "$exists" {
-			if v, isBool := e.Value.(bool); isBool {
-				if !v {
-					return Not(Lookup(e.Key, Exists())), nil
-				} else {
-					return nil, nil
-				}
-			} else {
-				return nil, errors.Errorf("$exists requires a bool value but got %v", e)
-			}
-		}
-	}
-	return nil, nil
-}
-
 /*
-Parses a value that has some operators in it
+Parses the operators that apply to the field at the selector.
+
+Every operator is a condition of its own on the field: if the field is an array (or is reached through
+one) then different elements can satisfy different operators.
 */
-func parseValueOperators(d bson.D) (Filter, error) {
+func parseFieldOperators(selector string, d bson.D) (Filter, error) {
 	filters := []Filter{}
 	for _, e := range d {
-
-		filter, err := parseValueOperator(e)
+		filter, err := parseFieldOperator(selector, e)
 		if err != nil {
 			return nil, err
 		}
@@ -334,6 +326,40 @@ func parseValueOperators(d bson.D) (Filter, error) {
 	return And(filters...), nil
 }
 
+func parseFieldOperator(selector string, e bson.E) (Filter, error) {
+	switch e.Key {
+	case "$exists":
+		{
+			v, isBool := e.Value.(bool)
+			if !isBool {
+				return nil, errors.Errorf("$exists requires a bool value but got %v", e)
+			}
+			if !v {
+				return Not(Lookup(selector, Exists())), nil
+			}
+			return Lookup(selector, Exists()), nil
+		}
+	case "$eq":
+		return parseFieldValue(selector, e.Value)
+	case "$ne":
+		{
+			f, err := parseFieldValue(selector, e.Value)
+			if err != nil {
+				return nil, err
+			}
+			return Not(f), nil
+		}
+	default:
+		{
+			f, err := parseValueOperator(e)
+			if err != nil {
+				return nil, err
+			}
+			return Lookup(selector, Broadcast(f)), nil
+		}
+	}
+}
+
 func parseValueOperator(e bson.E) (Filter, error) {
 
 	if filter, err := parseNumericOperator(e); err != nil || filter != nil {
@@ -341,13 +367,6 @@ func parseValueOperator(e bson.E) (Filter, error) {
 	}
 
 	switch e.Key {
-	case "$eq":
-		return parseValue(e.Value)
-	case "$ne":
-		{
-			f, err := parseValue(e.Value)
-			return Not(f), err
-		}
 	case "$in":
 		{
 			v := reflect.ValueOf(e.Value)
-- 
2.43.0


From d7a533890e47302dd21485f9aa09a192580e771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 05/67] fix: simplenosqldb integer conditions never matched
 floating-point fields

---
 runtime/plugins/simplenosqldb/query/filter.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index 1541147..f5921bc 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -234,6 +234,8 @@ func (f *cmpInt) Apply(item any) bool {
 		case Lte:
 			return v <= f.value
 		}
+	} else if _, isFloat := floatValue(item); isFloat {
+		return CmpFloat(float64(f.value), f.cmp).Apply(item)
 	}
 	return false
 }
-- 
2.43.0


From fe89126341bdbd69579579b2e556a6772e7ab599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 06/67] fix: simplenosqldb exact array matches also matched
 longer arrays

---
 runtime/plugins/simplenosqldb/query/filter.go   | 17 +++++++++++++++++
 .../plugins/simplenosqldb/query/parsefilter.go  |  1 +
 2 files changed, 18 insertions(+)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index f5921bc..a6a732d 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -72,6 +72,10 @@ type (
 		re *regexp.Regexp
 	}
 
+	size struct {
+		length int
+	}
+
 	all struct {
 		values []Filter
 	}
@@ -177,6 +181,10 @@ func Regex(regex_string string) (Filter, error) {
 	return &regex{re: re}, err
 }
 
+func Size(length int) Filter {
+	return &size{length: length}
+}
+
 func All(filters ...Filter) Filter {
 	return &all{values: filters}
 }
@@ -303,6 +311,11 @@ func (f *regex) Apply(item any) bool {
 	return isStr && f.re.MatchString(strval)
 }
 
+func (f *size) Apply(item any) bool {
+	a, isA := item.(bson.A)
+	return isA && len(a) == f.length
+}
+
 func (f *all) Apply(item any) bool {
 	a, isA := item.(bson.A)
 	if !isA {
@@ -412,6 +425,10 @@ func (f *regex) String() string {
 	return fmt.Sprintf("regex(%v)", f.re.String())
 }
 
+func (f *size) String() string {
+	return fmt.Sprintf("size(%v)", f.length)
+}
+
 func (f *all) String() string {
 	var valueStrings []string
 	for _, value := range f.values {
diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index 438bb93..f24b56e 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -128,6 +128,7 @@ func parseArrayValues(a bson.A) (Filter, error) {
 			arrayFilters = append(arrayFilters, Index(i, Equals(v)))
 		}
 	}
+	arrayFilters = append(arrayFilters, Size(len(a)))
 	return And(arrayFilters...), nil
 }
 
-- 
2.43.0


From 3aec6c3644a7e0f56f8f65a7f4b129832e78b9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 07/67] fix: simplenosqldb $elemMatch also matched fields that
 are no arrays

---
 runtime/plugins/simplenosqldb/query/filter.go      | 3 +++
 runtime/plugins/simplenosqldb/query/parsefilter.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index a6a732d..c0463f7 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -342,6 +342,9 @@ func (f *elemMatch) Apply(item any) bool {
 
 outer:
 	for _, e := range a {
+		if _, isD := e.(bson.D); !isD {
+			continue
+		}
 		for _, query := range f.queries {
 			if !query.Apply(e) {
 				continue outer
diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index f24b56e..a63339b 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -302,7 +302,7 @@ func parseArrayOperator(e bson.E) (Filter, error) {
 				return nil, errors.Errorf("$elemMatch must be a bson.D but got %v", e)
 			}
 			filter, err := parseQuery(d)
-			return Broadcast(filter), err
+			return ElemMatch(filter), err
 		}
 	case "$size":
 	}
-- 
2.43.0


From a10b45de068b6a40b443b69b05a15dce34da2a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 08/67] fix: simplenosqldb an empty $or matched every document

---
 runtime/plugins/simplenosqldb/query/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index c0463f7..a65bf4a 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -152,7 +152,7 @@ func And(filters ...Filter) Filter {
 func Or(filters ...Filter) Filter {
 	switch len(filters) {
 	case 0:
-		return Exists()
+		return Not(Exists())
 	case 1:
 		return filters[0]
 	default:
-- 
2.43.0


From 14b502cf7e8488bbb61b3eac655453c0278e0064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 09/67] fix: simplenosqldb $all ignored single values and
 arrays reached through arrays

---
 .../simplenosqldb/query/parsefilter.go        | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index a63339b..6fef6dc 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -166,8 +166,8 @@ func parseFilterCondition(e bson.E) (Filter, error) {
 			}
 
 			// Array operators can't mix with regular value operators
-			if filter, err := parseArrayOperators(v); err != nil || filter != nil {
-				return Lookup(e.Key, filter), err
+			if filter, err := parseArrayOperators(e.Key, v); err != nil || filter != nil {
+				return filter, err
 			}
 
 			// We have regular value operators
@@ -256,10 +256,10 @@ $all, $elemMatch, $size
 If anything is found in the document that does not match these,
 this will return nil.
 */
-func parseArrayOperators(d bson.D) (Filter, error) {
+func parseArrayOperators(selector string, d bson.D) (Filter, error) {
 	filters := []Filter{}
 	for _, e := range d {
-		filter, err := parseArrayOperator(e)
+		filter, err := parseArrayOperator(selector, e)
 		if err != nil {
 			return nil, err
 		}
@@ -277,7 +277,7 @@ func parseArrayOperators(d bson.D) (Filter, error) {
 	return And(filters...), nil
 }
 
-func parseArrayOperator(e bson.E) (Filter, error) {
+func parseArrayOperator(selector string, e bson.E) (Filter, error) {
 	switch e.Key {
 	case "$all":
 		{
@@ -287,13 +287,16 @@ func parseArrayOperator(e bson.E) (Filter, error) {
 			}
 			var valuefilters []Filter
 			for _, value := range values {
-				valuefilter, err := parseValue(value)
+				valuefilter, err := parseFieldValue(selector, value)
 				if err != nil {
 					return nil, err
 				}
 				valuefilters = append(valuefilters, valuefilter)
 			}
-			return All(valuefilters...), nil
+			if len(valuefilters) == 0 {
+				return Not(Exists()), nil
+			}
+			return And(valuefilters...), nil
 		}
 	case "$elemMatch":
 		{
@@ -302,7 +305,7 @@ func parseArrayOperator(e bson.E) (Filter, error) {
 				return nil, errors.Errorf("$elemMatch must be a bson.D but got %v", e)
 			}
 			filter, err := parseQuery(d)
-			return ElemMatch(filter), err
+			return Lookup(selector, ElemMatch(filter)), err
 		}
 	case "$size":
 	}
-- 
2.43.0


From 71c0bf06056b16522d512803c77ea69b71795dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 10/67] fix: simplenosqldb updating an array element dropped
 the elements after it

---
 runtime/plugins/simplenosqldb/query/update.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index 74aa2cd..44c97f9 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -401,12 +401,9 @@ func (s *updateindex) Apply(itemRef any) error {
 	if !s.createIfAbsent && len(v) <= s.index {
 		return nil
 	}
-	if cap(v) <= s.index {
-		newv := make(bson.A, 0, s.index+1)
-		newv = append(newv, v...)
-		v = newv
+	for len(v) <= s.index {
+		v = append(v, nil)
 	}
-	v = v[:s.index+1]
 
 	// Update at the specified index and copy back to ptr
 	err = s.update.Apply(&v[s.index])
-- 
2.43.0


From d86ffbece2719560a1379a1865e9a7cfa86f0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 11/67] fix: simplenosqldb setting a field to null panicked

---
 runtime/plugins/simplenosqldb/query/update.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index 44c97f9..7d9e367 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -171,19 +171,7 @@ func (s *set) Apply(itemRef any) error {
 		return err
 	}
 
-	dst_ptr := reflect.ValueOf(itemRef)
-	if dst_ptr.Kind() != reflect.Pointer || dst_ptr.IsNil() {
-		return errors.Errorf("set unable to apply update to non-pointer type %v", reflect.TypeOf(itemRef))
-	}
-	dst_val := reflect.Indirect(dst_ptr)
-
-	if dst_val.Kind() != reflect.Interface {
-		return errors.Errorf("set unable to apply update to non-interface type %v", reflect.TypeOf(dst_val))
-	}
-
-	dst_val.Set(reflect.ValueOf(v))
-
-	return nil
+	return backend.CopyResult(v, itemRef)
 }
 
 func (p *push) Apply(itemRef any) error {
-- 
2.43.0


From 4a7e795fe72c63d50404d1a7a4c13e5684e8150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 12/67] fix: simplenosqldb $pull created the field it found
 missing

---
 runtime/plugins/simplenosqldb/query/parseupdate.go | 2 +-
 runtime/plugins/simplenosqldb/query/update.go      | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/parseupdate.go b/runtime/plugins/simplenosqldb/query/parseupdate.go
index 7541c3a..f957a1e 100644
--- a/runtime/plugins/simplenosqldb/query/parseupdate.go
+++ b/runtime/plugins/simplenosqldb/query/parseupdate.go
@@ -206,7 +206,7 @@ func parsePull(args any) ([]Update, error) {
 		if err != nil {
 			return nil, err
 		}
-		updates = append(updates, UpdatePath(e.Key, update))
+		updates = append(updates, updatePath(e.Key, update, false))
 	}
 	return updates, nil
 }
diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index 7d9e367..fb6cda9 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -110,12 +110,16 @@ func UpdateIndex(index int, update Update, createIfAbsent bool) Update {
 }
 
 func UpdatePath(selector string, update Update) Update {
+	return updatePath(selector, update, true)
+}
+
+func updatePath(selector string, update Update, createIfAbsent bool) Update {
 	splits := strings.Split(selector, ".")
 	for i := len(splits) - 1; i >= 0; i-- {
 		if j, err := strconv.Atoi(splits[i]); err == nil {
-			update = UpdateIndex(j, update, true)
+			update = UpdateIndex(j, update, createIfAbsent)
 		} else {
-			update = UpdateField(splits[i], update, true)
+			update = UpdateField(splits[i], update, createIfAbsent)
 			if i != 0 {
 				update = BroadcastUpdate(update) // broadcast in case the field is an array type
 			}
-- 
2.43.0


From 4e17e2c835f95fbd28f8e83586f47489f90887c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 13/67] fix: simplenosqldb $addToSet added numbers that were
 there with another type

---
 runtime/plugins/simplenosqldb/query/update.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index fb6cda9..7001426 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -225,8 +225,9 @@ func (p *addtoset) Apply(itemRef any) error {
 	}
 
 	// Check if it exists
+	same := Equals(v)
 	for i := range a {
-		if reflect.DeepEqual(v, a[i]) {
+		if same.Apply(a[i]) {
 			return nil
 		}
 	}
-- 
2.43.0


From 0753f625888750cd1c86f37d7800516fa227717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 14/67] fix: simplenosqldb kept the caller's bson documents, so
 later changes to them altered the collection

---
 runtime/plugins/simplenosqldb/nosqldb.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index 86cfb1c..62f0b3e 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -97,13 +97,9 @@ func (c *SimpleCursor) All(ctx context.Context, obj interface{}) error {
 }
 
 func (db *SimpleCollection) InsertOne(ctx context.Context, document interface{}) error {
-	d, isD := document.(bson.D)
-	if !isD {
-		var err error
-		d, err = toBson(document)
-		if err != nil {
-			return err
-		}
+	d, err := toBson(document) // also copies a document that is bson already
+	if err != nil {
+		return err
 	}
 	hasId := false
 	for _, e := range d {
-- 
2.43.0


From 0adf03cd52988abc6b35c88b8491845556404d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 15/67] fix: simplenosqldb updates altered results of earlier
 queries, and failed ones were half applied

---
 runtime/plugins/simplenosqldb/nosqldb.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index 62f0b3e..a8cd708 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -236,7 +236,10 @@ func (db *SimpleCollection) UpdateOne(ctx context.Context, filter bson.D, update
 			if verbose {
 				fmt.Printf("MATCH: %v\n", db.items[i])
 			}
-			return 1, updateOp.Apply(&db.items[i])
+			if err := db.updateItem(i, updateOp); err != nil {
+				return 0, err
+			}
+			return 1, nil
 		} else {
 			if verbose {
 				fmt.Printf("      %v\n", db.items[i])
@@ -267,7 +270,7 @@ func (db *SimpleCollection) UpdateMany(ctx context.Context, filter bson.D, updat
 			if verbose {
 				fmt.Printf("UPDATING: %v\n", db.items[i])
 			}
-			err := updateOp.Apply(&db.items[i])
+			err := db.updateItem(i, updateOp)
 			if err != nil {
 				return updated, err
 			}
@@ -284,6 +287,20 @@ func (db *SimpleCollection) UpdateMany(ctx context.Context, filter bson.D, updat
 	return updated, nil
 }
 
+// Updates a copy of the item, because cursors refer to the items they found, and because an update
+// that fails must have no effect.
+func (db *SimpleCollection) updateItem(i int, updateOp query.Update) error {
+	updated, err := toBson(db.items[i])
+	if err != nil {
+		return err
+	}
+	if err := updateOp.Apply(&updated); err != nil {
+		return err
+	}
+	db.items[i] = updated
+	return nil
+}
+
 func (db *SimpleCollection) Upsert(ctx context.Context, filter bson.D, document interface{}) (bool, error) {
 	updatedCount, err := db.ReplaceOne(ctx, filter, document)
 	if updatedCount == 1 || err != nil {
-- 
2.43.0


From 65b1c691f58a3436fd72046004bdcb5f4bcd24cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 16/67] fix: simplenosqldb replacing lost the _id, lost the
 document on errors, and ReplaceMany ignored invalid filters

---
 runtime/plugins/simplenosqldb/nosqldb.go | 47 ++++++++++++++++--------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index a8cd708..eb8d962 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -101,18 +101,7 @@ func (db *SimpleCollection) InsertOne(ctx context.Context, document interface{})
 	if err != nil {
 		return err
 	}
-	hasId := false
-	for _, e := range d {
-		if e.Key == "_id" {
-			hasId = true
-			break
-		}
-	}
-	if !hasId {
-		d = append(bson.D{{"_id", primitive.NewObjectID()}}, d...)
-	}
-
-	db.items = append(db.items, d)
+	db.items = append(db.items, withId(d, nil))
 	return nil
 }
 
@@ -325,8 +314,10 @@ func (db *SimpleCollection) ReplaceOne(ctx context.Context, filter bson.D, repla
 	}
 	for i, item := range db.items {
 		if query.Apply(item) {
-			db.items[i], err = toBson(replacement)
-			return 1, err
+			if err := db.replaceItem(i, replacement); err != nil {
+				return 0, err
+			}
+			return 1, nil
 		}
 	}
 	return 0, nil
@@ -335,12 +326,12 @@ func (db *SimpleCollection) ReplaceOne(ctx context.Context, filter bson.D, repla
 func (db *SimpleCollection) ReplaceMany(ctx context.Context, filter bson.D, replacements ...interface{}) (int, error) {
 	query, err := query.ParseFilter(filter)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	updateCount := 0
 	for i := 0; updateCount < len(replacements) && i < len(db.items); i++ {
 		if query.Apply(db.items[i]) {
-			db.items[i], err = toBson(replacements[updateCount])
+			err = db.replaceItem(i, replacements[updateCount])
 			if err != nil {
 				return updateCount, err
 			}
@@ -350,6 +341,30 @@ func (db *SimpleCollection) ReplaceMany(ctx context.Context, filter bson.D, repl
 	return updateCount, nil
 }
 
+// Replaces the item with the document.  The item keeps its _id if the document has none.
+func (db *SimpleCollection) replaceItem(i int, document interface{}) error {
+	d, err := toBson(document)
+	if err != nil {
+		return err
+	}
+	db.items[i] = withId(d, db.items[i])
+	return nil
+}
+
+func withId(d bson.D, previous bson.D) bson.D {
+	for _, e := range d {
+		if e.Key == "_id" {
+			return d
+		}
+	}
+	for _, e := range previous {
+		if e.Key == "_id" {
+			return append(bson.D{e}, d...)
+		}
+	}
+	return append(bson.D{{"_id", primitive.NewObjectID()}}, d...)
+}
+
 func toBson(document any) (bson.D, error) {
 	bytes, err := bson.Marshal(document)
 	if err != nil {
-- 
2.43.0


From 193c20ad788ed1eb3ed1e2dd71f81ce58c27bf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 17/67] fix: simplenosqldb was not safe for concurrent use

---
 runtime/plugins/simplenosqldb/nosqldb.go | 39 ++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index eb8d962..63c7e8b 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"sync"
 
 	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
 	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb/query"
@@ -26,10 +27,12 @@ type (
 	// Only a small set of common basic filter and update operators are supported, but typically this is sufficient
 	// for most applications and enables writing service-level unit tests.
 	SimpleNoSQLDB struct {
+		mu          sync.Mutex
 		collections map[string]map[string]*SimpleCollection
 	}
 
 	SimpleCollection struct {
+		mu    sync.Mutex
 		items []bson.D
 	}
 
@@ -46,6 +49,8 @@ func NewSimpleNoSQLDB(ctx context.Context) (*SimpleNoSQLDB, error) {
 }
 
 func (impl *SimpleNoSQLDB) GetCollection(ctx context.Context, db_name string, collection_name string) (backend.NoSQLCollection, error) {
+	impl.mu.Lock()
+	defer impl.mu.Unlock()
 	db, dbExists := impl.collections[db_name]
 	if !dbExists {
 		db = make(map[string]*SimpleCollection)
@@ -97,6 +102,12 @@ func (c *SimpleCursor) All(ctx context.Context, obj interface{}) error {
 }
 
 func (db *SimpleCollection) InsertOne(ctx context.Context, document interface{}) error {
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	return db.insertOne(document)
+}
+
+func (db *SimpleCollection) insertOne(document interface{}) error {
 	d, err := toBson(document) // also copies a document that is bson already
 	if err != nil {
 		return err
@@ -116,6 +127,8 @@ func (db *SimpleCollection) InsertMany(ctx context.Context, documents []interfac
 }
 
 func (db *SimpleCollection) FindOne(ctx context.Context, filter bson.D, projection ...bson.D) (backend.NoSQLCursor, error) {
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	query, err := query.ParseFilter(filter)
 	if err != nil {
 		return nil, err
@@ -146,6 +159,8 @@ func SetVerbose(enabled bool) bool {
 }
 
 func (db *SimpleCollection) FindMany(ctx context.Context, filter bson.D, projection ...bson.D) (backend.NoSQLCursor, error) {
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	query, err := query.ParseFilter(filter)
 	if err != nil {
 		return nil, err
@@ -170,6 +185,8 @@ func (db *SimpleCollection) FindMany(ctx context.Context, filter bson.D, project
 }
 
 func (db *SimpleCollection) DeleteOne(ctx context.Context, filter bson.D) error {
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	query, err := query.ParseFilter(filter)
 	if err != nil {
 		return err
@@ -184,6 +201,8 @@ func (db *SimpleCollection) DeleteOne(ctx context.Context, filter bson.D) error
 }
 
 func (db *SimpleCollection) DeleteMany(ctx context.Context, filter bson.D) error {
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	query, err := query.ParseFilter(filter)
 	if err != nil {
 		return err
@@ -207,6 +226,8 @@ func (db *SimpleCollection) DeleteMany(ctx context.Context, filter bson.D) error
 }
 
 func (db *SimpleCollection) UpdateOne(ctx context.Context, filter bson.D, update bson.D) (int, error) {
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	filterOp, err := query.ParseFilter(filter)
 	if err != nil {
 		return 0, err
@@ -239,6 +260,8 @@ func (db *SimpleCollection) UpdateOne(ctx context.Context, filter bson.D, update
 }
 
 func (db *SimpleCollection) UpdateMany(ctx context.Context, filter bson.D, update bson.D) (int, error) {
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	filterOp, err := query.ParseFilter(filter)
 	if err != nil {
 		return 0, err
@@ -291,11 +314,13 @@ func (db *SimpleCollection) updateItem(i int, updateOp query.Update) error {
 }
 
 func (db *SimpleCollection) Upsert(ctx context.Context, filter bson.D, document interface{}) (bool, error) {
-	updatedCount, err := db.ReplaceOne(ctx, filter, document)
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	updatedCount, err := db.replaceOne(filter, document)
 	if updatedCount == 1 || err != nil {
 		return true, err
 	}
-	return false, db.InsertOne(ctx, document)
+	return false, db.insertOne(document)
 }
 
 func (db *SimpleCollection) UpsertID(ctx context.Context, id primitive.ObjectID, document interface{}) (bool, error) {
@@ -308,6 +333,12 @@ func (db *SimpleCollection) UpsertID(ctx context.Context, id primitive.ObjectID,
 }
 
 func (db *SimpleCollection) ReplaceOne(ctx context.Context, filter bson.D, replacement interface{}) (int, error) {
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	return db.replaceOne(filter, replacement)
+}
+
+func (db *SimpleCollection) replaceOne(filter bson.D, replacement interface{}) (int, error) {
 	query, err := query.ParseFilter(filter)
 	if err != nil {
 		return 0, err
@@ -324,6 +355,8 @@ func (db *SimpleCollection) ReplaceOne(ctx context.Context, filter bson.D, repla
 }
 
 func (db *SimpleCollection) ReplaceMany(ctx context.Context, filter bson.D, replacements ...interface{}) (int, error) {
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	query, err := query.ParseFilter(filter)
 	if err != nil {
 		return 0, err
@@ -384,6 +417,8 @@ func fromBson(d bson.D, dst any) error {
 }
 
 func (db *SimpleCollection) String() string {
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	var strs []string
 	for i := range db.items {
 		strs = append(strs, fmt.Sprintf("%v", db.items[i]))
-- 
2.43.0


From 1275a5c4ef550be83e8cc676efb017e9cf124927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 18/67] fix: simplenosqldb $in did not match arrays and missing
 fields as in mongodb

---
 .../simplenosqldb/query/parsefilter.go        | 35 +++++++++----------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index 6fef6dc..1f5f534 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -353,6 +353,22 @@ func parseFieldOperator(selector string, e bson.E) (Filter, error) {
 			}
 			return Not(f), nil
 		}
+	case "$in":
+		{
+			v := reflect.ValueOf(e.Value)
+			if v.Kind() != reflect.Slice {
+				return nil, errors.Errorf("$in requires a bson.A value or a slice, but got %v", e)
+			}
+			var filters []Filter
+			for i := 0; i < v.Len(); i++ {
+				filter, err := parseFieldValue(selector, v.Index(i).Interface())
+				if err != nil {
+					return nil, err
+				}
+				filters = append(filters, filter)
+			}
+			return Or(filters...), nil
+		}
 	default:
 		{
 			f, err := parseValueOperator(e)
@@ -371,25 +387,6 @@ func parseValueOperator(e bson.E) (Filter, error) {
 	}
 
 	switch e.Key {
-	case "$in":
-		{
-			v := reflect.ValueOf(e.Value)
-			if v.Kind() != reflect.Slice {
-				return nil, errors.Errorf("$in requires a bson.A value or a slice, but got %v", e)
-			}
-			var filters []Filter
-			for i := 0; i < v.Len(); i++ {
-				filter, err := parseValue(v.Index(i).Interface())
-				if err != nil {
-					return nil, err
-				}
-				filters = append(filters, filter)
-			}
-			if len(filters) == 0 {
-				return Not(Exists()), nil
-			}
-			return Or(filters...), nil
-		}
 	case "$nin":
 		{
 			return nil, errors.Errorf("$nin not implemented; use $nor and $in instead")
-- 
2.43.0


From a2fe05c46b735eb77ef21e9ba46679f5f2036bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 19/67] fix: simplenosqldb refused to set or push null

---
 runtime/plugins/simplenosqldb/query/update.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index 7001426..d5ebea9 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -10,6 +10,7 @@ import (
 	"github.com/pkg/errors"
 	"go.mongodb.org/mongo-driver/bson"
 	"go.mongodb.org/mongo-driver/bson/bsontype"
+	"go.mongodb.org/mongo-driver/bson/primitive"
 )
 
 type Update interface {
@@ -70,18 +71,26 @@ type (
 	}
 )
 
+// The encoding of value.  The bson library does not encode an untyped nil by itself.
+func marshalValue(value any) (bsontype.Type, []byte, error) {
+	if value == nil {
+		value = primitive.Null{}
+	}
+	return bson.MarshalValue(value)
+}
+
 func SetValue(value any) (Update, error) {
-	t, v, err := bson.MarshalValue(value)
+	t, v, err := marshalValue(value)
 	return &set{t: t, value: v}, err
 }
 
 func PushValue(value any) (Update, error) {
-	t, v, err := bson.MarshalValue(value)
+	t, v, err := marshalValue(value)
 	return &push{t: t, value: v}, err
 }
 
 func AddToSet(value any) (Update, error) {
-	t, v, err := bson.MarshalValue(value)
+	t, v, err := marshalValue(value)
 	return &addtoset{t: t, value: v}, err
 }
 
-- 
2.43.0


From fdef6516451041aa07b1b2f416c28edb7cf737f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 20/67] fix: simplenosqldb $addToSet added documents that were
 there with another number type

---
 runtime/plugins/simplenosqldb/query/update.go | 33 +++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index d5ebea9..6b62d2f 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -234,9 +234,8 @@ func (p *addtoset) Apply(itemRef any) error {
 	}
 
 	// Check if it exists
-	same := Equals(v)
 	for i := range a {
-		if same.Apply(a[i]) {
+		if sameValue(v, a[i]) {
 			return nil
 		}
 	}
@@ -245,6 +244,36 @@ func (p *addtoset) Apply(itemRef any) error {
 	return backend.CopyResult(a, itemRef)
 }
 
+// Compares values as in mongodb, where numbers of different types are the same if they are equal
+func sameValue(v1 any, v2 any) bool {
+	switch a := v1.(type) {
+	case bson.D:
+		b, isD := v2.(bson.D)
+		if !isD || len(a) != len(b) {
+			return false
+		}
+		for i := range a {
+			if a[i].Key != b[i].Key || !sameValue(a[i].Value, b[i].Value) {
+				return false
+			}
+		}
+		return true
+	case bson.A:
+		b, isA := v2.(bson.A)
+		if !isA || len(a) != len(b) {
+			return false
+		}
+		for i := range a {
+			if !sameValue(a[i], b[i]) {
+				return false
+			}
+		}
+		return true
+	default:
+		return Equals(v1).Apply(v2)
+	}
+}
+
 func (p *pull) Apply(itemRef any) error {
 	itemVal, err := backend.GetPointerValue(itemRef)
 	if err != nil {
-- 
2.43.0


From 94c962e977cce90f3b315498d482359bd4dff0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 21/67] fix: concurrent Gets of a namespace raced and could
 build a node twice

---
 runtime/plugins/golang/namespace.go | 39 ++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/runtime/plugins/golang/namespace.go b/runtime/plugins/golang/namespace.go
index 3115a79..b407c10 100644
--- a/runtime/plugins/golang/namespace.go
+++ b/runtime/plugins/golang/namespace.go
@@ -83,6 +83,9 @@ type Namespace struct {
 	buildFuncs map[string]BuildFunc
 	built      map[string]any
 
+	mu       sync.Mutex             // protects built and building
+	building map[string]*sync.Mutex // held while the named node is being built
+
 	ctx    context.Context
 	cancel context.CancelFunc
 	wg     *sync.WaitGroup
@@ -355,9 +358,6 @@ func (b *NamespaceBuilder) checkRequired(parent *Namespace) error {
 
 // Reports whether the namespace has a definition for name
 func (n *Namespace) has(name string) bool {
-	if _, isBuilt := n.built[name]; isBuilt {
-		return true
-	}
 	if _, hasDef := n.buildFuncs[name]; hasDef {
 		return true
 	}
@@ -367,13 +367,38 @@ func (n *Namespace) has(name string) bool {
 	return false
 }
 
+func (n *Namespace) getBuilt(name string) (node any, isBuilt bool) {
+	n.mu.Lock()
+	defer n.mu.Unlock()
+	node, isBuilt = n.built[name]
+	return
+}
+
+// The lock that must be held while building the named node
+func (n *Namespace) lockFor(name string) *sync.Mutex {
+	n.mu.Lock()
+	defer n.mu.Unlock()
+	if n.building == nil {
+		n.building = make(map[string]*sync.Mutex)
+	}
+	if n.building[name] == nil {
+		n.building[name] = &sync.Mutex{}
+	}
+	return n.building[name]
+}
+
 // Gets a node from this namespace.  If the node hasn't been built yet,
 // it will be built.
 func (n *Namespace) Get(name string, receiver any) error {
-	if existing, exists := n.built[name]; exists {
-		return backend.CopyResult(existing, receiver)
-	}
 	if build, exists := n.buildFuncs[name]; exists {
+		// Only one caller at a time can build the node; any others wait for it
+		building := n.lockFor(name)
+		building.Lock()
+		defer building.Unlock()
+		if existing, exists := n.getBuilt(name); exists {
+			return backend.CopyResult(existing, receiver)
+		}
+
 		built, err := build(n)
 		if err != nil {
 			slog.Error(fmt.Sprintf("%v error building %v", n.name, name))
@@ -386,7 +411,9 @@ func (n *Namespace) Get(name string, receiver any) error {
 				slog.Info(fmt.Sprintf("%v built %v (%v)", n.name, name, reflect.TypeOf(built)))
 			}
 		}
+		n.mu.Lock()
 		n.built[name] = built
+		n.mu.Unlock()
 
 		if runnable, isRunnable := built.(Runnable); isRunnable {
 			slog.Info(fmt.Sprintf("%v running %v", n.name, name))
-- 
2.43.0


From a0aa3e0a9fab90344f0331be0636a1f9c7ee59a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 22/67] fix: awaiting a namespace did not wait for nodes of
 namespaces nested deeper than its children

---
 runtime/plugins/golang/namespace.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/runtime/plugins/golang/namespace.go b/runtime/plugins/golang/namespace.go
index b407c10..a2f84f5 100644
--- a/runtime/plugins/golang/namespace.go
+++ b/runtime/plugins/golang/namespace.go
@@ -417,9 +417,8 @@ func (n *Namespace) Get(name string, receiver any) error {
 
 		if runnable, isRunnable := built.(Runnable); isRunnable {
 			slog.Info(fmt.Sprintf("%v running %v", n.name, name))
-			n.wg.Add(1)
-			if n.parent != nil {
-				n.parent.wg.Add(1)
+			for ns := n; ns != nil; ns = ns.parent {
+				ns.wg.Add(1)
 			}
 			go func() {
 				err := runnable.Run(n.ctx)
@@ -429,9 +428,8 @@ func (n *Namespace) Get(name string, receiver any) error {
 				} else {
 					slog.Info(fmt.Sprintf("%v %v exited", n.name, name))
 				}
-				n.wg.Done()
-				if n.parent != nil {
-					n.parent.wg.Done()
+				for ns := n; ns != nil; ns = ns.parent {
+					ns.wg.Done()
 				}
 			}()
 		}
-- 
2.43.0


From ab237242bcefce762472b21de25a11e5a32b7562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 23/67] fix: nodes kept running after their namespace failed to
 build

---
 runtime/plugins/golang/namespace.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/plugins/golang/namespace.go b/runtime/plugins/golang/namespace.go
index a2f84f5..f78daa3 100644
--- a/runtime/plugins/golang/namespace.go
+++ b/runtime/plugins/golang/namespace.go
@@ -236,6 +236,7 @@ func (b *NamespaceBuilder) Build(ctx context.Context) (*Namespace, error) {
 	for _, name := range b.instantiate {
 		var node any
 		if err := n.Get(name, &node); err != nil {
+			n.cancel() // stop any nodes that are already running
 			return nil, err
 		}
 	}
@@ -284,6 +285,7 @@ func (b *NamespaceBuilder) BuildWithParent(parent *Namespace) (*Namespace, error
 	for _, name := range b.instantiate {
 		var node any
 		if err := n.Get(name, &node); err != nil {
+			n.cancel() // stop any nodes that are already running
 			return nil, err
 		}
 	}
-- 
2.43.0


From e46bde43a7a335f870997dae391b9c5e8d4b7078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 24/67] fix: starting a node while its namespace was awaited
 could panic

---
 runtime/plugins/golang/namespace.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/runtime/plugins/golang/namespace.go b/runtime/plugins/golang/namespace.go
index f78daa3..b1f14c4 100644
--- a/runtime/plugins/golang/namespace.go
+++ b/runtime/plugins/golang/namespace.go
@@ -88,7 +88,9 @@ type Namespace struct {
 
 	ctx    context.Context
 	cancel context.CancelFunc
-	wg     *sync.WaitGroup
+
+	running int        // number of nodes running in this namespace and its children; protected by mu
+	idle    *sync.Cond // signalled when running becomes 0
 
 	parent *Namespace
 }
@@ -230,7 +232,7 @@ func (b *NamespaceBuilder) Build(ctx context.Context) (*Namespace, error) {
 	maps.Copy(n.buildFuncs, b.buildFuncs)
 	n.built = make(map[string]any)
 	n.ctx, n.cancel = context.WithCancel(ctx)
-	n.wg = &sync.WaitGroup{}
+	n.idle = sync.NewCond(&n.mu)
 
 	// Instantiate Normal nodes
 	for _, name := range b.instantiate {
@@ -279,7 +281,7 @@ func (b *NamespaceBuilder) BuildWithParent(parent *Namespace) (*Namespace, error
 	maps.Copy(n.buildFuncs, b.buildFuncs)
 	n.built = make(map[string]any)
 	n.ctx, n.cancel = context.WithCancel(parent.ctx)
-	n.wg = &sync.WaitGroup{}
+	n.idle = sync.NewCond(&n.mu)
 
 	// Instantiate nodes
 	for _, name := range b.instantiate {
@@ -420,7 +422,7 @@ func (n *Namespace) Get(name string, receiver any) error {
 		if runnable, isRunnable := built.(Runnable); isRunnable {
 			slog.Info(fmt.Sprintf("%v running %v", n.name, name))
 			for ns := n; ns != nil; ns = ns.parent {
-				ns.wg.Add(1)
+				ns.addRunning(1)
 			}
 			go func() {
 				err := runnable.Run(n.ctx)
@@ -431,7 +433,7 @@ func (n *Namespace) Get(name string, receiver any) error {
 					slog.Info(fmt.Sprintf("%v %v exited", n.name, name))
 				}
 				for ns := n; ns != nil; ns = ns.parent {
-					ns.wg.Done()
+					ns.addRunning(-1)
 				}
 			}()
 		}
@@ -462,5 +464,19 @@ func (n *Namespace) Shutdown(awaitCompletion bool) {
 
 // If any nodes in this namespace are running goroutines, waits for them to finish
 func (n *Namespace) Await() {
-	n.wg.Wait()
+	n.mu.Lock()
+	defer n.mu.Unlock()
+	for n.running > 0 {
+		n.idle.Wait()
+	}
+}
+
+// A sync.WaitGroup would not allow nodes to start while somebody is awaiting the namespace
+func (n *Namespace) addRunning(delta int) {
+	n.mu.Lock()
+	defer n.mu.Unlock()
+	n.running += delta
+	if n.running == 0 {
+		n.idle.Broadcast()
+	}
 }
-- 
2.43.0


From 8fadb73f40cb2cea92a7ec0cb55a0f1455de961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:05 +0000
Subject: [PATCH 25/67] fix: a cycle of aliases made the compiler loop forever

---
 blueprint/pkg/wiring/wiring.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/blueprint/pkg/wiring/wiring.go b/blueprint/pkg/wiring/wiring.go
index b654a4d..007b1fe 100644
--- a/blueprint/pkg/wiring/wiring.go
+++ b/blueprint/pkg/wiring/wiring.go
@@ -150,14 +150,15 @@ func (def *WiringDef) String() string {
 }
 
 func (spec *wiringSpecImpl) resolveAlias(alias string) string {
-	for {
+	// Following more aliases than there are means that they form a cycle, which is not the name of a def
+	for range spec.aliases {
 		name, is_alias := spec.aliases[alias]
-		if is_alias {
-			alias = name
-		} else {
-			return alias
+		if !is_alias {
+			break
 		}
+		alias = name
 	}
+	return alias
 }
 
 func (spec *wiringSpecImpl) getDef(name string, createIfAbsent bool) *WiringDef {
-- 
2.43.0


From e8e6e69a484f714fa40d0c94194b4fb6e5fbc15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 26/67] fix: setting a property of an alias destroyed the alias

---
 blueprint/pkg/wiring/wiring.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blueprint/pkg/wiring/wiring.go b/blueprint/pkg/wiring/wiring.go
index 007b1fe..0dc61aa 100644
--- a/blueprint/pkg/wiring/wiring.go
+++ b/blueprint/pkg/wiring/wiring.go
@@ -224,20 +224,20 @@ func (spec *wiringSpecImpl) GetAlias(alias string) (string, bool) {
 
 // Sets a static value in the wiring spec, replacing any existing values for the specified key
 func (spec *wiringSpecImpl) SetProperty(name string, propKey string, propValue any) {
-	def := spec.getDef(name, true)
+	def := spec.getDef(spec.resolveAlias(name), true)
 	def.Properties[propKey] = []any{propValue}
 
 }
 
 // Adds a static value to the wiring spec, appending it to any existing values for the specified key
 func (spec *wiringSpecImpl) AddProperty(name string, propKey string, propValue any) {
-	def := spec.getDef(name, true)
+	def := spec.getDef(spec.resolveAlias(name), true)
 	def.Properties[propKey] = append(def.Properties[propKey], propValue)
 }
 
 // Primarily for use by plugins to get configuration values
 func (spec *wiringSpecImpl) GetProperty(name string, key string, dst any) error {
-	def := spec.getDef(name, false)
+	def := spec.GetDef(name)
 	if def != nil {
 		return def.GetProperty(key, dst)
 	}
@@ -246,7 +246,7 @@ func (spec *wiringSpecImpl) GetProperty(name string, key string, dst any) error
 
 // Primarily for use by plugins to get configuration values
 func (spec *wiringSpecImpl) GetProperties(name string, key string, dst any) error {
-	def := spec.getDef(name, false)
+	def := spec.GetDef(name)
 	if def != nil {
 		return def.GetProperties(key, dst)
 	}
-- 
2.43.0


From d6c0e5798637aa96588aeee6db7303103d3afb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 27/67] fix: names that only have properties made the compiler
 panic

---
 blueprint/pkg/wiring/namespace.go | 3 +++
 blueprint/pkg/wiring/wiring.go    | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index d238be9..cc1d9af 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -162,6 +162,9 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 	if err != nil {
 		return err
 	}
+	if def.Build == nil {
+		return namespace.Error("%s has properties but is not defined in the wiring spec of namespace %s", name, namespace.NamespaceName)
+	}
 
 	// Track the defs being built
 	namespace.stack = append(namespace.stack, def)
diff --git a/blueprint/pkg/wiring/wiring.go b/blueprint/pkg/wiring/wiring.go
index 0dc61aa..cec46b1 100644
--- a/blueprint/pkg/wiring/wiring.go
+++ b/blueprint/pkg/wiring/wiring.go
@@ -132,7 +132,13 @@ func (def *WiringDef) String() string {
 	var b strings.Builder
 	b.WriteString(def.Name)
 	b.WriteString(" = ")
-	b.WriteString(reflect.TypeOf(def.NodeType).Elem().Name())
+	if nodeType := reflect.TypeOf(def.NodeType); nodeType == nil {
+		b.WriteString("?")
+	} else if nodeType.Kind() == reflect.Pointer {
+		b.WriteString(nodeType.Elem().Name())
+	} else {
+		b.WriteString(nodeType.Name())
+	}
 	b.WriteString("(")
 	var propStrings []string
 	for propKey, values := range def.Properties {
-- 
2.43.0


From b816107dc0a5eaae9aa76433ba388354d7c509d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 28/67] fix: getting an alias again after its node failed to
 build panicked

---
 blueprint/pkg/wiring/namespace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index cc1d9af..db163d9 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -177,10 +177,10 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		namespace.Info("Resolved %s to %s", name, def.Name)
 		var node ir.IRNode
 		err := namespace.get(def.Name, addEdge, &node)
-		namespace.Seen[name] = node
 		if err != nil {
 			return err
 		}
+		namespace.Seen[name] = node
 		return copyResult(node, dst)
 	}
 
-- 
2.43.0


From 4b1ffeb19e7d0b05a552cd9582ec9bd1a96b2cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 29/67] fix: nodes that depend on each other made the compiler
 overflow its stack

---
 blueprint/pkg/wiring/namespace.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index db163d9..59db232 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -106,7 +106,8 @@ type namespaceimpl struct {
 	Deferred        []func() error       // Deferred functions to execute
 	ChildNamespaces map[string]Namespace // Child namespaces
 
-	stack []*WiringDef // Used when building; the stack of wiring defs currently being built
+	stack    []*WiringDef    // Used when building; the stack of wiring defs currently being built
+	building map[string]bool // Used when building; the nodes whose BuildFunc has been called and has not returned
 }
 
 // NamespaceHandler is an interface intended for use by any Blueprint plugin that wants to
@@ -216,6 +217,16 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		namespace.Info("Building %s (alias %s) of type %s", def.Name, name, reflect.TypeOf(def.NodeType).String())
 	}
 
+	// A node that is needed to build itself can never be built
+	if namespace.building[name] {
+		return namespace.Error("Namespace %s cannot build %s because it depends on itself", namespace.NamespaceName, name)
+	}
+	if namespace.building == nil {
+		namespace.building = make(map[string]bool)
+	}
+	namespace.building[name] = true
+	defer delete(namespace.building, name)
+
 	// Build the node
 	node, err := def.Build(namespace)
 	if err != nil {
-- 
2.43.0


From 1d5acefedb97c837dea62db49c579b8074c94b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 30/67] fix: putting a node into a namespace that does not
 accept it failed when there is a parent namespace

---
 blueprint/pkg/wiring/namespace.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index 59db232..85c6033 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -255,11 +255,11 @@ func (namespace *namespaceimpl) Put(name string, node ir.IRNode) error {
 		return nil
 	}
 
-	if namespace.ParentNamespace != nil {
+	if namespace.ParentNamespace == nil {
 		return namespace.Error("%s of type %s does not belong in this namespace, but cannot push to parent namespace because no parent namespace exists", name, reflect.TypeOf(node).Elem().Name())
 	}
 
-	namespace.Info("%s of type %s does not belong in this namespace; pushing to parent namespace %s", name, reflect.TypeOf(node).Elem().Name(), namespace.ParentNamespace)
+	namespace.Info("%s of type %s does not belong in this namespace; pushing to parent namespace %s", name, reflect.TypeOf(node).Elem().Name(), namespace.ParentNamespace.Name())
 	err := namespace.ParentNamespace.Put(name, node)
 	if err != nil {
 		return err
-- 
2.43.0


From 4e287274e41d879e3e73a6d28600a9f010d38f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 31/67] fix: errors while instantiating the server side of a
 pointer were dropped

---
 blueprint/pkg/coreplugins/pointer/pointer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/pkg/coreplugins/pointer/pointer.go b/blueprint/pkg/coreplugins/pointer/pointer.go
index f5e0ec3..14a7725 100644
--- a/blueprint/pkg/coreplugins/pointer/pointer.go
+++ b/blueprint/pkg/coreplugins/pointer/pointer.go
@@ -243,7 +243,7 @@ func (ptr *PointerDef) InstantiateDst(namespace wiring.Namespace) error {
 
 	// Getting the first dst modifier should cause all of the dst side of the pointer to be instantiated
 	var dst ir.IRNode
-	if namespace.Instantiate(ptr.dstModifiers[0], &dst) != nil {
+	if err := namespace.Instantiate(ptr.dstModifiers[0], &dst); err != nil {
 		return err
 	}
 
-- 
2.43.0


From cffee69f5ecafa20e1fa67cfd4d845016e26e351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 32/67] fix: errors added to a wiring spec were ignored when
 building it

---
 blueprint/pkg/wiring/application.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blueprint/pkg/wiring/application.go b/blueprint/pkg/wiring/application.go
index 758738e..2f0bbc2 100644
--- a/blueprint/pkg/wiring/application.go
+++ b/blueprint/pkg/wiring/application.go
@@ -19,6 +19,11 @@ func BuildApplicationIR(spec WiringSpec, name string, nodesToInstantiate ...stri
 	// Create the root application namespace
 	app := &ir.ApplicationNode{ApplicationName: name}
 
+	// Report errors made while defining the application
+	if err := spec.Err(); err != nil {
+		return app, err
+	}
+
 	namespace := &namespaceimpl{
 		NamespaceName:   name,
 		NamespaceType:   "BlueprintApplication",
-- 
2.43.0


From d09596bc0e1e853130189d1456c362926d7174a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:00 +0000
Subject: [PATCH 33/67] fix: getting a node that had been instantiated before
 did not add an edge

---
 blueprint/pkg/wiring/namespace.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index 85c6033..4b98a62 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -102,11 +102,12 @@ type namespaceimpl struct {
 	Wiring          WiringSpec           // The wiring spec
 	Handler         NamespaceHandler     // User-provided handler
 	Seen            map[string]ir.IRNode // Cache of built nodes
-	Added           map[string]any       // Nodes that have been passed to the handler
+	Added           map[string]any       // Nodes that have been passed to the handler; false if they might still need an edge
 	Deferred        []func() error       // Deferred functions to execute
 	ChildNamespaces map[string]Namespace // Child namespaces
 
 	stack    []*WiringDef    // Used when building; the stack of wiring defs currently being built
+	edgeless map[string]bool // Names in Seen that so far were only instantiated, rather than gotten, from the parent namespace
 	building map[string]bool // Used when building; the nodes whose BuildFunc has been called and has not returned
 }
 
@@ -144,6 +145,13 @@ func (namespace *namespaceimpl) Get(name string, dst any) error {
 	return namespace.get(name, true, dst)
 }
 
+func (namespace *namespaceimpl) setEdgeless(name string, edgeless bool) {
+	if namespace.edgeless == nil {
+		namespace.edgeless = make(map[string]bool)
+	}
+	namespace.edgeless[name] = edgeless
+}
+
 func (namespace *namespaceimpl) lookupDef(name string) (*WiringDef, error) {
 	def := namespace.Wiring.GetDef(name)
 	if def == nil {
@@ -153,8 +161,8 @@ func (namespace *namespaceimpl) lookupDef(name string) (*WiringDef, error) {
 }
 
 func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
-	// If it already exists, return it
-	if node, ok := namespace.Seen[name]; ok {
+	// If it already exists, return it, unless it still needs an edge
+	if node, ok := namespace.Seen[name]; ok && !(addEdge && namespace.edgeless[name]) {
 		return copyResult(node, dst)
 	}
 
@@ -182,6 +190,7 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 			return err
 		}
 		namespace.Seen[name] = node
+		namespace.setEdgeless(name, !addEdge)
 		return copyResult(node, dst)
 	}
 
@@ -200,14 +209,17 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		if err != nil {
 			return err
 		}
-		if _, already_added := namespace.Added[node.Name()]; !already_added {
-			if _, is_metadata := node.(ir.IRMetadata); !is_metadata && addEdge && !def.Options.ProxyNode {
-				// Don't bother adding edges for metadata or proxy nodes, or instantiate (vs get) nodes
+		if namespace.Added[node.Name()] != true {
+			// Don't bother adding edges for metadata or proxy nodes, or instantiate (vs get) nodes
+			_, is_metadata := node.(ir.IRMetadata)
+			needs_edge := !is_metadata && addEdge && !def.Options.ProxyNode
+			if needs_edge {
 				namespace.Handler.AddEdge(name, node)
 			}
-			namespace.Added[node.Name()] = true
+			namespace.Added[node.Name()] = is_metadata || needs_edge
 		}
 		namespace.Seen[name] = node
+		namespace.setEdgeless(name, !addEdge)
 		return copyResult(node, dst)
 	}
 
-- 
2.43.0


From 61a36d9354d09edae25eb4c9fc40c055c0ec647e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 34/67] fix: give every retrier client a generated type of its
 own

The number of attempts, delays, rate limits and token costs of a retrier are
part of the generated code, but its type was named after the interface of the
service only. With two services of the same interface in one process the
parameters of one replaced those of the other.
---
 plugins/retries/codegen.go | 27 +++++++++++++++++----------
 plugins/retries/ir.go      | 21 ++++++++++-----------
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index db70ead..037154d 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -4,14 +4,21 @@ import (
 	"fmt"
 	"path/filepath"
 
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gogen"
 	"golang.org/x/exp/slog"
 )
 
+// The name of the generated client type. The parameters of the retries are part of the generated code, so
+// every instance has a client type of its own, even if several services implement the same interface.
+func clientName(instanceName string, wrapped *gocode.ServiceInterface, kind string) string {
+	return fmt.Sprintf("%v_%v_%v", wrapped.BaseName, ir.CleanName(instanceName), kind)
+}
+
 // code generation function called from the ir.go file.
-func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, Max int64) error {
+func generateClient(builder golang.ModuleBuilder, instanceName string, wrapped *gocode.ServiceInterface, outputPackage string, Max int64) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -20,7 +27,7 @@ func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterfa
 	client := clientArgs{
 		Package: pkg,
 		Service: wrapped,
-		Name:    wrapped.BaseName + "_RetrierClient",
+		Name:    clientName(instanceName, wrapped, "RetrierClient"),
 		Max:     Max,
 		Imports: gogen.NewImports(pkg.Name),
 	}
@@ -30,7 +37,7 @@ func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterfa
 	return generateClientCommon(&client, clientTemplate)
 }
 
-func generateExpBackoffClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, delay string, limit string, useJitter bool) error {
+func generateExpBackoffClient(builder golang.ModuleBuilder, instanceName string, wrapped *gocode.ServiceInterface, outputPackage string, delay string, limit string, useJitter bool) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -39,7 +46,7 @@ func generateExpBackoffClient(builder golang.ModuleBuilder, wrapped *gocode.Serv
 	client := clientArgs{
 		Package:   pkg,
 		Service:   wrapped,
-		Name:      wrapped.BaseName + "_RetrierExpBackoffClient",
+		Name:      clientName(instanceName, wrapped, "RetrierExpBackoffClient"),
 		Imports:   gogen.NewImports(pkg.Name),
 		Delay:     delay,
 		Limit:     limit,
@@ -51,7 +58,7 @@ func generateExpBackoffClient(builder golang.ModuleBuilder, wrapped *gocode.Serv
 	return generateClientCommon(&client, clientExponentialBackoffTemplate)
 }
 
-func generateFixedDelayClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, max_tries int64, delay string) error {
+func generateFixedDelayClient(builder golang.ModuleBuilder, instanceName string, wrapped *gocode.ServiceInterface, outputPackage string, max_tries int64, delay string) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -60,7 +67,7 @@ func generateFixedDelayClient(builder golang.ModuleBuilder, wrapped *gocode.Serv
 	client := clientArgs{
 		Package: pkg,
 		Service: wrapped,
-		Name:    wrapped.BaseName + "_RetrierFixedDelayClient",
+		Name:    clientName(instanceName, wrapped, "RetrierFixedDelayClient"),
 		Imports: gogen.NewImports(pkg.Name),
 		Delay:   delay,
 		Max:     max_tries,
@@ -71,7 +78,7 @@ func generateFixedDelayClient(builder golang.ModuleBuilder, wrapped *gocode.Serv
 	return generateClientCommon(&client, clientFixedDelayTemplate)
 }
 
-func generateRateLimiterClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, Max int64, RetryRateLimit int64) error {
+func generateRateLimiterClient(builder golang.ModuleBuilder, instanceName string, wrapped *gocode.ServiceInterface, outputPackage string, Max int64, RetryRateLimit int64) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -80,7 +87,7 @@ func generateRateLimiterClient(builder golang.ModuleBuilder, wrapped *gocode.Ser
 	client := clientArgs{
 		Package:        pkg,
 		Service:        wrapped,
-		Name:           wrapped.BaseName + "_RetrierRateLimiterClient",
+		Name:           clientName(instanceName, wrapped, "RetrierRateLimiterClient"),
 		Max:            Max,
 		RetryRateLimit: RetryRateLimit,
 		Imports:        gogen.NewImports(pkg.Name),
@@ -91,7 +98,7 @@ func generateRateLimiterClient(builder golang.ModuleBuilder, wrapped *gocode.Ser
 	return generateClientCommon(&client, clientRateLimiterTemplate)
 }
 
-func generateTokenBucketClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, capacity float64, retry_cost float64, replenish_amount float64) error {
+func generateTokenBucketClient(builder golang.ModuleBuilder, instanceName string, wrapped *gocode.ServiceInterface, outputPackage string, capacity float64, retry_cost float64, replenish_amount float64) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -100,7 +107,7 @@ func generateTokenBucketClient(builder golang.ModuleBuilder, wrapped *gocode.Ser
 	client := clientArgs{
 		Package:      pkg,
 		Service:      wrapped,
-		Name:         wrapped.BaseName + "_RetrierTokenBucketClient",
+		Name:         clientName(instanceName, wrapped, "RetrierTokenBucketClient"),
 		Imports:      gogen.NewImports(pkg.Name),
 		Capacity:     capacity,
 		RetryCost:    retry_cost,
diff --git a/plugins/retries/ir.go b/plugins/retries/ir.go
index 5eed3b9..2328503 100644
--- a/plugins/retries/ir.go
+++ b/plugins/retries/ir.go
@@ -1,7 +1,6 @@
 package retries
 
 import (
-	"fmt"
 	"reflect"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
@@ -67,7 +66,7 @@ func (node *RetrierClient) GenerateFuncs(builder golang.ModuleBuilder) error {
 		return err
 	}
 
-	return generateClient(builder, iface, node.outputPackage, node.Max)
+	return generateClient(builder, node.InstanceName, iface, node.outputPackage, node.Max)
 }
 
 func (node *RetrierClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -83,7 +82,7 @@ func (node *RetrierClient) AddInstantiation(builder golang.NamespaceBuilder) err
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierClient", iface.BaseName),
+			Name: "New_" + clientName(node.InstanceName, iface, "RetrierClient"),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -152,7 +151,7 @@ func (node *RetrierFixedDelayClient) GenerateFuncs(builder golang.ModuleBuilder)
 		return err
 	}
 
-	return generateFixedDelayClient(builder, iface, node.outputPackage, node.Max, node.Delay)
+	return generateFixedDelayClient(builder, node.InstanceName, iface, node.outputPackage, node.Max, node.Delay)
 }
 
 func (node *RetrierFixedDelayClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -168,7 +167,7 @@ func (node *RetrierFixedDelayClient) AddInstantiation(builder golang.NamespaceBu
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierFixedDelayClient", iface.BaseName),
+			Name: "New_" + clientName(node.InstanceName, iface, "RetrierFixedDelayClient"),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -239,7 +238,7 @@ func (node *RetrierExponentialBackoffClient) GenerateFuncs(builder golang.Module
 		return err
 	}
 
-	return generateExpBackoffClient(builder, iface, node.outputPackage, node.StartDelay, node.BackoffLimit, node.UseJitter)
+	return generateExpBackoffClient(builder, node.InstanceName, iface, node.outputPackage, node.StartDelay, node.BackoffLimit, node.UseJitter)
 }
 
 func (node *RetrierExponentialBackoffClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -255,7 +254,7 @@ func (node *RetrierExponentialBackoffClient) AddInstantiation(builder golang.Nam
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierExpBackoffClient", iface.BaseName),
+			Name: "New_" + clientName(node.InstanceName, iface, "RetrierExpBackoffClient"),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -324,7 +323,7 @@ func (node *RetrierRateLimiterClient) GenerateFuncs(builder golang.ModuleBuilder
 		return err
 	}
 
-	return generateRateLimiterClient(builder, iface, node.outputPackage, node.Max, node.RetryRateLimit)
+	return generateRateLimiterClient(builder, node.InstanceName, iface, node.outputPackage, node.Max, node.RetryRateLimit)
 }
 
 func (node *RetrierRateLimiterClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -340,7 +339,7 @@ func (node *RetrierRateLimiterClient) AddInstantiation(builder golang.NamespaceB
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierRateLimiterClient", iface.BaseName),
+			Name: "New_" + clientName(node.InstanceName, iface, "RetrierRateLimiterClient"),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -411,7 +410,7 @@ func (node *RetrierTokenBucketClient) GenerateFuncs(builder golang.ModuleBuilder
 		return err
 	}
 
-	return generateTokenBucketClient(builder, iface, node.outputPackage, node.Capacity, node.RetryCost, node.ReplenishAmt)
+	return generateTokenBucketClient(builder, node.InstanceName, iface, node.outputPackage, node.Capacity, node.RetryCost, node.ReplenishAmt)
 }
 
 func (node *RetrierTokenBucketClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -427,7 +426,7 @@ func (node *RetrierTokenBucketClient) AddInstantiation(builder golang.NamespaceB
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierTokenBucketClient", iface.BaseName),
+			Name: "New_" + clientName(node.InstanceName, iface, "RetrierTokenBucketClient"),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
-- 
2.43.0


From 63b3ca8e5f7d51729d5b0a0fcaaaace4242d062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 35/67] fix: make generated retrier clients safe for concurrent
 calls

The rate limiter and token bucket retriers updated their tokens, and the
backoff retrier its random source, without synchronization, although one
client serves all concurrent calls of a process: retries in excess of the
limit, tokens lost, and panics of the random source.
---
 plugins/retries/codegen.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index 037154d..f971218 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -93,7 +93,7 @@ func generateRateLimiterClient(builder golang.ModuleBuilder, instanceName string
 		Imports:        gogen.NewImports(pkg.Name),
 	}
 
-	client.Imports.AddPackages("context", "time")
+	client.Imports.AddPackages("context", "sync", "time")
 
 	return generateClientCommon(&client, clientRateLimiterTemplate)
 }
@@ -114,7 +114,7 @@ func generateTokenBucketClient(builder golang.ModuleBuilder, instanceName string
 		ReplenishAmt: replenish_amount,
 	}
 
-	client.Imports.AddPackages("context", "math")
+	client.Imports.AddPackages("context", "math", "sync")
 
 	return generateClientCommon(&client, clientTokenBucketTemplate)
 }
@@ -229,9 +229,6 @@ type {{.Name}} struct {
 	Client {{.Imports.NameOf .Service.UserType}}
 	Delay time.Duration
 	Limit time.Duration
-	{{if .UseJitter -}}
-	Rand *rand.Rand
-	{{- end}}
 }
 
 func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
@@ -247,17 +244,12 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 		return nil, err
 	}
 	handler.Limit = parsed_limit
-	
-	{{if .UseJitter -}}
-	handler.Rand = rand.New(rand.NewSource(time.Now().UnixNano()))
-	{{- end}}
-
 	return handler, nil
 }
 
 {{if .UseJitter}}
 func (client *{{.Name}}) addJitter(d time.Duration) time.Duration {
-	return d/2 + time.Duration(client.Rand.Int63n(int64(d/2)))
+	return d/2 + time.Duration(rand.Int63n(int64(d/2)))
 }
 {{end}}
 
@@ -314,6 +306,7 @@ package {{.Package.ShortName}}
 type {{.Name}} struct {
 	Client {{.Imports.NameOf .Service.UserType}}
 	MaxTries int
+	mu sync.Mutex // guards tokens and lastRefill
 	tokens float64
 	maxTokens float64
 	refillRate float64
@@ -352,6 +345,8 @@ func (client *{{.Name}}) waitForToken(ctx context.Context) error {
 
 // acquireToken implements token bucket algorithm
 func (client *{{.Name}}) acquireToken() bool {
+	client.mu.Lock()
+	defer client.mu.Unlock()
 	now := time.Now()
 	elapsed := now.Sub(client.lastRefill).Seconds()
 	
@@ -410,6 +405,7 @@ package {{.Package.ShortName}}
 
 type {{.Name}} struct {
 	Client {{.Imports.NameOf .Service.UserType}}
+	mu sync.Mutex // guards TokenBucket
 	TokenBucket float64
 }
 
@@ -428,16 +424,21 @@ func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Co
 	ctx = context.WithValue(ctx, "attempt_num", 1)
 	{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
 	if err != nil {
+		client.mu.Lock()
 		tb := client.TokenBucket
 		if tb - {{$node.RetryCost}} < 1.0 {
 			// Not enough tokens
+			client.mu.Unlock()
 			return
 		} else {
 			client.TokenBucket = tb - {{$node.RetryCost}}
+			client.mu.Unlock()
 			ctx = context.WithValue(ctx, "attempt_num", 2)
 			{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
 			if err == nil {
+				client.mu.Lock()
 				client.TokenBucket = math.Min(client.TokenBucket + {{$node.ReplenishAmt}}, {{$node.Capacity}})
+				client.mu.Unlock()
 				return
 			}
 		}
-- 
2.43.0


From 8c89943933ffda7429ae2487795ba88214691eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 36/67] fix: do not let a call that timed out write to the
 results of its caller

The goroutine of the generated timeout client assigned the named results of
the method. After a timeout these are being returned: a data race, by which
the caller could get a timeout without an error. It also blocked forever on
the channel that nobody receives from any more.
---
 plugins/timeouts/codegen.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/plugins/timeouts/codegen.go b/plugins/timeouts/codegen.go
index 99e71d6..62daa83 100644
--- a/plugins/timeouts/codegen.go
+++ b/plugins/timeouts/codegen.go
@@ -65,10 +65,11 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
 	ctx, cancel := context.WithDeadline(ctx, time.Now().Add(client.Timeout))
 	defer cancel()
-	is_complete := make(chan bool)
+	// The call may outlive this one: it must not write to its results, nor wait for someone to take its own
+	complete := make(chan func() ({{RetTypes $f "error"}}), 1)
 	go func() {
-		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
-		is_complete <- true
+		{{RetVars $f "err"}} := client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+		complete <- func() ({{RetTypes $f "error"}}) { return {{RetVars $f "err"}} }
 	}()
 
 	// Wait till we either complete the request or it gets timed out
@@ -76,8 +77,8 @@ func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Co
 	case <-ctx.Done():
 		err = errors.New("Request was timed out")
 		return
-	case <-is_complete:
-		return
+	case results := <-complete:
+		return results()
 	}
 }
 {{end}}
-- 
2.43.0


From 3365744f1ffaa5406f2cd93cfdec629e69715988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 37/67] fix: give every circuit breaker client a generated type
 of its own

The trip condition and interval are part of the generated code, but its type
was named after the interface of the service only. With two services of the
same interface in one process the parameters of one replaced those of the
other.
---
 plugins/circuitbreaker/codegen.go | 15 +++++++++++----
 plugins/circuitbreaker/ir.go      |  5 ++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/plugins/circuitbreaker/codegen.go b/plugins/circuitbreaker/codegen.go
index 698ce54..bdeafa8 100644
--- a/plugins/circuitbreaker/codegen.go
+++ b/plugins/circuitbreaker/codegen.go
@@ -4,13 +4,20 @@ import (
 	"fmt"
 	"path/filepath"
 
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gogen"
 	"golang.org/x/exp/slog"
 )
 
-func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, MinReqs int64, FailureRate float64, Interval string) error {
+// The name of the generated client type. The parameters of the circuit breaker are part of the generated code, so
+// every instance has a client type of its own, even if several services implement the same interface.
+func clientName(instanceName string, wrapped *gocode.ServiceInterface) string {
+	return fmt.Sprintf("%v_%v_CircuitBreakerClient", wrapped.BaseName, ir.CleanName(instanceName))
+}
+
+func generateClient(builder golang.ModuleBuilder, instanceName string, wrapped *gocode.ServiceInterface, outputPackage string, MinReqs int64, FailureRate float64, Interval string) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -19,7 +26,7 @@ func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterfa
 	client := clientArgs{
 		Package:     pkg,
 		Service:     wrapped,
-		Name:        wrapped.BaseName + "_CircuitBreakerClient",
+		Name:        clientName(instanceName, wrapped),
 		MinReqs:     MinReqs,
 		FailureRate: FailureRate,
 		Interval:    Interval,
@@ -28,8 +35,8 @@ func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterfa
 
 	client.Imports.AddPackages("context", "time", "github.com/mercari/go-circuitbreaker")
 
-	slog.Info(fmt.Sprintf("Generating %v/%v", client.Package.PackageName, wrapped.BaseName+"CircuitBreakerClient"))
-	outputFile := filepath.Join(client.Package.Path, wrapped.BaseName+"_CircuitBreakerClient.go")
+	slog.Info(fmt.Sprintf("Generating %v/%v", client.Package.PackageName, client.Name))
+	outputFile := filepath.Join(client.Package.Path, client.Name+".go")
 	return gogen.ExecuteTemplateToFile("CircuitBreaker", clientTemplate, client, outputFile)
 }
 
diff --git a/plugins/circuitbreaker/ir.go b/plugins/circuitbreaker/ir.go
index 21c06ce..a2c8ade 100644
--- a/plugins/circuitbreaker/ir.go
+++ b/plugins/circuitbreaker/ir.go
@@ -1,7 +1,6 @@
 package circuitbreaker
 
 import (
-	"fmt"
 	"reflect"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
@@ -71,7 +70,7 @@ func (node *CircuitBreakerClient) GenerateFuncs(builder golang.ModuleBuilder) er
 		return err
 	}
 
-	return generateClient(builder, iface, node.outputPackage, node.Min_Reqs, node.FailureRate, node.Interval)
+	return generateClient(builder, node.InstanceName, iface, node.outputPackage, node.Min_Reqs, node.FailureRate, node.Interval)
 }
 
 func (node *CircuitBreakerClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -87,7 +86,7 @@ func (node *CircuitBreakerClient) AddInstantiation(builder golang.NamespaceBuild
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_CircuitBreakerClient", iface.BaseName),
+			Name: "New_" + clientName(node.InstanceName, iface),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
-- 
2.43.0


From 584da85040cbf01158fc15beef2fdac286ab1ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 38/67] fix: generate the code of every client pool

The size of a client pool, its instance name and the client it wraps are part
of the generated code, but it was generated for the first pool of an interface
only. With two pooled services of the same interface in one process, all calls
went to the first of them.
---
 plugins/clientpool/ir.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/plugins/clientpool/ir.go b/plugins/clientpool/ir.go
index 227da93..362ca60 100644
--- a/plugins/clientpool/ir.go
+++ b/plugins/clientpool/ir.go
@@ -65,12 +65,8 @@ func (pool *ClientPool) AddInterfaces(module golang.ModuleBuilder) error {
 
 // Implements golang.GeneratesFuncs
 func (pool *ClientPool) GenerateFuncs(module golang.ModuleBuilder) error {
-	/* Only generate clientpool code for the wrapped client once */
-	iface, err := golang.GetGoInterface(module, pool.Client)
-	if err != nil {
-		return err
-	}
-	if module.Visited(iface.Name + "_ClientPool") {
+	/* Only generate the code of this clientpool once */
+	if module.Visited(pool.PoolName + ".generateFuncs") {
 		return nil
 	}
 
@@ -88,7 +84,7 @@ func (pool *ClientPool) GenerateFuncs(module golang.ModuleBuilder) error {
 	if err != nil {
 		return err
 	}
-	namespaceBuilder, err := gogen.NewNamespaceBuilder(module, args.Service.BaseName+"_PoolClient", args.ClientFileName, args.PackageShortName, args.ClientConstructor)
+	namespaceBuilder, err := gogen.NewNamespaceBuilder(module, args.BaseName+"_PoolClient", args.ClientFileName, args.PackageShortName, args.ClientConstructor)
 	if err != nil {
 		return err
 	}
@@ -143,13 +139,15 @@ func (pool *ClientPool) getTemplateArgs(module golang.ModuleBuilder) (*templateA
 	args.WrappedClient = pool.Client.Name()
 	args.InstanceName = pool.PoolName
 	args.MaxClients = pool.N
-	args.PoolName = args.Service.Name + "_ClientPool"
+	// The size of the pool and its client are part of the generated code, so every pool has types of its own
+	args.BaseName = args.Service.BaseName + "_" + ir.CleanName(pool.PoolName)
+	args.PoolName = args.BaseName + "_ClientPool"
 	args.PackageShortName = "pool"
 	args.PackageName = module.Info().Name + "/" + args.PackageShortName
-	args.ClientFileName = args.Service.BaseName + "_pool_client.go"
-	args.PoolFileName = args.Service.BaseName + "_pool.go"
-	args.ClientConstructor = fmt.Sprintf("New_%v_PoolClient", args.Service.BaseName)
-	args.PoolConstructor = fmt.Sprintf("New_%v_Pool", args.Service.BaseName)
+	args.ClientFileName = args.BaseName + "_pool_client.go"
+	args.PoolFileName = args.BaseName + "_pool.go"
+	args.ClientConstructor = fmt.Sprintf("New_%v_PoolClient", args.BaseName)
+	args.PoolConstructor = fmt.Sprintf("New_%v_Pool", args.BaseName)
 	args.Imports = gogen.NewImports(args.PackageName)
 
 	args.Imports.AddPackages(
@@ -163,6 +161,7 @@ func (pool *ClientPool) getTemplateArgs(module golang.ModuleBuilder) (*templateA
 type (
 	templateArgs struct {
 		InstanceName      string
+		BaseName          string
 		WrappedClient     string
 		MaxClients        int
 		PoolName          string
-- 
2.43.0


From 9c0015fe0388946a73ddf02f304ad24fe99d34d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 39/67] fix: number the clients of a pool without a data race

The pool creates clients from concurrent calls, which all read and incremented
the same variable.
---
 plugins/clientpool/ir.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/plugins/clientpool/ir.go b/plugins/clientpool/ir.go
index 362ca60..20d5ec4 100644
--- a/plugins/clientpool/ir.go
+++ b/plugins/clientpool/ir.go
@@ -151,7 +151,7 @@ func (pool *ClientPool) getTemplateArgs(module golang.ModuleBuilder) (*templateA
 	args.Imports = gogen.NewImports(args.PackageName)
 
 	args.Imports.AddPackages(
-		"context", "fmt",
+		"context", "fmt", "sync/atomic",
 		"github.com/blueprint-uservices/blueprint/runtime/plugins/clientpool",
 		"github.com/blueprint-uservices/blueprint/runtime/plugins/golang",
 	)
@@ -190,14 +190,13 @@ type {{.PoolName}} struct {
 }
 
 func {{.PoolConstructor}}(parent *golang.Namespace) *{{.PoolName}} {
-	i := 0
+	var created atomic.Int64
 	createClient := func() ({{NameOf .Service.UserType}}, error) {
-		clientName := fmt.Sprintf("{{.InstanceName}}.%v", i)
+		clientName := fmt.Sprintf("{{.InstanceName}}.%v", created.Add(1)-1)
 		n, err := {{.ClientConstructor}}(clientName).BuildWithParent(parent)
 		if err != nil {
 			return nil, err
 		}
-		i++
 		var client {{NameOf .Service.UserType}}
 		err = n.Get("{{.WrappedClient}}", &client)
 		return client, err
-- 
2.43.0


From 25a566496cffc351117b30d794f64e845b900a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:31 +0000
Subject: [PATCH 40/67] fix: do not lose maps received by gRPC

The code generated for unpacking a message assigned maps of basic values to
the message instead of from it, and unpacked the values of maps of structs
into a copy that was dropped. Receivers got nil maps, and maps of zero values.
---
 plugins/grpc/grpccodegen/marshallgen.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index 118e037..3e88a40 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -201,10 +201,11 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 	for k, v := range msg.%s {
 		objv := %s%s[k]
 		v.unmarshall(&objv)
-	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), obj, f.Name), nil
+		%s%s[k] = objv
+	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), obj, f.Name, obj, f.Name), nil
 				}
 			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
+				return fmt.Sprintf("%s%s = msg.%s", obj, f.Name, strings.Title(f.Name)), nil
 			default:
 				return "", blueprint.Errorf("unsupported map value type %v", t)
 			}
-- 
2.43.0


From ab24e35d3f6fb5b545d8ab2485a736b2dbae70b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:31 +0000
Subject: [PATCH 41/67] fix: gRPC calls with pointers to structs panicked

Packing a nil pointer to a struct dereferenced it, and unpacking a message
wrote to the fields of a struct that had not been allocated.
---
 plugins/grpc/grpccodegen/marshallgen.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index 3e88a40..35e5fb0 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -65,6 +65,9 @@ func (msg *{{$method.Response.GRPCType.Name}}) unmarshall() (
 {{ range $t, $struct := .Structs}}
 // Utility function to pack {{$imports.Qualify $t.Package $t.Name}} into a GRPC {{$struct.GRPCType.Name}} message
 func (msg *{{$struct.GRPCType.Name}}) marshall(obj *{{$imports.Qualify $t.Package $t.Name}}) *{{$struct.GRPCType.Name}} {
+	if obj == nil {
+		return nil
+	}
 	{{- range $j, $field := $struct.FieldList}}
 	{{$field.Marshall $imports "obj."}}
 	{{- end}}
@@ -184,7 +187,11 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 		{
 			switch pt := t.PointerTo.(type) {
 			case *gocode.UserType:
-				return fmt.Sprintf("msg.%s.unmarshall(%s%s)", strings.Title(f.Name), obj, f.Name), nil
+				return fmt.Sprintf(`
+	if msg.%s != nil {
+		%s%s = new(%s)
+		msg.%s.unmarshall(%s%s)
+	}`, strings.Title(f.Name), obj, f.Name, imports.NameOf(f.SrcType.(*gocode.Pointer).PointerTo), strings.Title(f.Name), obj, f.Name), nil
 			case *gocode.BasicType:
 				return fmt.Sprintf("%s%s = &%v(msg.%s)", obj, f.Name, f.SrcType, strings.Title(f.Name)), nil
 			default:
-- 
2.43.0


From 4c15d42a4489a9d45eea082b5a4d64c6a96bcb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 42/67] fix: convert the elements of slices and maps for gRPC

Slices and maps of, for example, int are slices and maps of int64 in messages;
the generated code assigned one to the other, which does not compile.
---
 plugins/grpc/grpccodegen/marshallgen.go | 41 +++++++++++++++++++------
 plugins/grpc/grpccodegen/protogen.go    |  5 ++-
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index 35e5fb0..89d3379 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -147,11 +147,18 @@ func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error)
 					return fmt.Sprintf(`
     msg.%s = make(map[%s]*%s)
 	for k, v := range %s%s {
-		msg.%s[k] = new(%s).marshall(&v)
-	}`, strings.Title(f.Name), t.KeyType, vt.Name, obj, f.Name, strings.Title(f.Name), vt.Name), nil
+		msg.%s[%s(k)] = new(%s).marshall(&v)
+	}`, strings.Title(f.Name), t.KeyType, vt.Name, obj, f.Name, strings.Title(f.Name), t.KeyType, vt.Name), nil
 				}
 			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
+				if t.Equals(f.SrcType) {
+					return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
+				}
+				return fmt.Sprintf(`
+	msg.%s = make(%s)
+	for k, v := range %s%s {
+		msg.%s[%s(k)] = %s(v)
+	}`, strings.Title(f.Name), t, obj, f.Name, strings.Title(f.Name), t.KeyType, vt), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented map value type %v", vt)
 			}
@@ -164,7 +171,11 @@ func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error)
 					"for _, v := range %s%s { msg.%s = append(msg.%s, new(%s).marshall(&v)) }",
 					obj, f.Name, strings.Title(f.Name), strings.Title(f.Name), st.Name), nil
 			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
+				if t.Equals(f.SrcType) {
+					return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
+				}
+				return fmt.Sprintf("for _, v := range %s%s { msg.%s = append(msg.%s, %s(v)) }",
+					obj, f.Name, strings.Title(f.Name), strings.Title(f.Name), st), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented slice type %v", st)
 			}
@@ -200,19 +211,27 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 		}
 	case *gocode.Map:
 		{
+			src := f.SrcType.(*gocode.Map)
 			switch t.ValueType.(type) {
 			case *gocode.UserType:
 				{
 					return fmt.Sprintf(`
     %s%s = make(%s)
 	for k, v := range msg.%s {
-		objv := %s%s[k]
+		objv := %s%s[%s(k)]
 		v.unmarshall(&objv)
-		%s%s[k] = objv
-	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), obj, f.Name, obj, f.Name), nil
+		%s%s[%s(k)] = objv
+	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), obj, f.Name, src.KeyType, obj, f.Name, src.KeyType), nil
 				}
 			case *gocode.BasicType:
-				return fmt.Sprintf("%s%s = msg.%s", obj, f.Name, strings.Title(f.Name)), nil
+				if t.Equals(src) {
+					return fmt.Sprintf("%s%s = msg.%s", obj, f.Name, strings.Title(f.Name)), nil
+				}
+				return fmt.Sprintf(`
+	%s%s = make(%s)
+	for k, v := range msg.%s {
+		%s%s[%s(k)] = %s(v)
+	}`, obj, f.Name, src, strings.Title(f.Name), obj, f.Name, src.KeyType, src.ValueType), nil
 			default:
 				return "", blueprint.Errorf("unsupported map value type %v", t)
 			}
@@ -227,7 +246,11 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 		v.unmarshall(&%s%s[i])
 	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), strings.Title(f.Name), obj, f.Name), nil
 			case *gocode.BasicType:
-				return fmt.Sprintf("%s%s = msg.%s", obj, f.Name, strings.Title(f.Name)), nil
+				if t.Equals(f.SrcType) {
+					return fmt.Sprintf("%s%s = msg.%s", obj, f.Name, strings.Title(f.Name)), nil
+				}
+				return fmt.Sprintf("for _, v := range msg.%s { %s%s = append(%s%s, %s(v)) }",
+					strings.Title(f.Name), obj, f.Name, obj, f.Name, f.SrcType.(*gocode.Slice).SliceOf), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented slice type %v", st)
 			}
diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index b359fa0..a48eead 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -337,8 +337,7 @@ var grpcToBasic = map[string]string{
 	"sint32": "int32", "sint64": "int64",
 	"uint32": "uint32", "uint64": "uint64",
 	"uint8":   "byte",
-	"float32": "float",
-	"float64": "double",
+	"float": "float32", "double": "float64",
 }
 
 var acceptableMapKeys map[string]struct{}
@@ -357,7 +356,7 @@ func getMapKeyType(t gocode.TypeName) (string, gocode.TypeName, bool) {
 	if basic, isBasic := t.(*gocode.BasicType); isBasic {
 		if grpcType, hasGrpcType := basicToGrpc[basic.Name]; hasGrpcType {
 			if _, isValid := acceptableMapKeys[grpcType]; isValid {
-				return grpcType, t, true
+				return grpcType, &gocode.BasicType{Name: grpcToBasic[grpcType]}, true
 			}
 		}
 	}
-- 
2.43.0


From f7121661c5ae63f97cd2d872add667bf7145a9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 43/67] fix: bytes and runes could not be passed by gRPC

They were given the type uint8 in messages, which protobuf does not have.
---
 plugins/grpc/grpccodegen/protogen.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index a48eead..9ac80c1 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -326,8 +326,8 @@ var basicToGrpc = map[string]string{
 	"string": "string",
 	"int":    "sint64", "int8": "sint32", "int16": "sint32", "int32": "sint32", "int64": "sint64",
 	"uint": "uint64", "uint8": "uint32", "uint16": "uint32", "uint32": "uint32", "uint64": "uint64",
-	"byte":    "uint8",
-	"rune":    "uint8",
+	"byte":    "uint32",
+	"rune":    "sint32",
 	"float32": "float", "float64": "double",
 }
 
@@ -336,7 +336,6 @@ var grpcToBasic = map[string]string{
 	"string": "string",
 	"sint32": "int32", "sint64": "int64",
 	"uint32": "uint32", "uint64": "uint64",
-	"uint8":   "byte",
 	"float": "float32", "double": "float64",
 }
 
-- 
2.43.0


From 37a558f2fc82c22b5101c99127391aedb844a587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 44/67] fix: pointers to basic types could not be passed by
 gRPC

The code generated for them did not compile.
---
 plugins/grpc/grpccodegen/marshallgen.go | 12 ++++++++++--
 plugins/grpc/grpccodegen/protogen.go    |  3 +++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index 89d3379..3c67125 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -134,7 +134,11 @@ func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error)
 			case *gocode.UserType:
 				return fmt.Sprintf("msg.%s = new(%s).marshall(%s%s)", strings.Title(f.Name), pt.Name, obj, f.Name), nil
 			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s(*%s%s)", strings.Title(f.Name), pt.Name, obj, f.Name), nil
+				return fmt.Sprintf(`
+	if %s%s != nil {
+		v := %s(*%s%s)
+		msg.%s = &v
+	}`, obj, f.Name, pt.Name, obj, f.Name, strings.Title(f.Name)), nil
 			default:
 				return "", blueprint.Errorf("unsupported pointer type %v", pt)
 			}
@@ -204,7 +208,11 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 		msg.%s.unmarshall(%s%s)
 	}`, strings.Title(f.Name), obj, f.Name, imports.NameOf(f.SrcType.(*gocode.Pointer).PointerTo), strings.Title(f.Name), obj, f.Name), nil
 			case *gocode.BasicType:
-				return fmt.Sprintf("%s%s = &%v(msg.%s)", obj, f.Name, f.SrcType, strings.Title(f.Name)), nil
+				return fmt.Sprintf(`
+	if msg.%s != nil {
+		v := %v(*msg.%s)
+		%s%s = &v
+	}`, strings.Title(f.Name), f.SrcType.(*gocode.Pointer).PointerTo, strings.Title(f.Name), obj, f.Name), nil
 			default:
 				return "", blueprint.Errorf("unsupported pointer type %v", pt)
 			}
diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index 9ac80c1..c40f941 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -387,6 +387,9 @@ func (b *gRPCProtoBuilder) getGRPCType(t gocode.TypeName) (string, gocode.TypeNa
 			if err != nil {
 				return "", nil, err
 			}
+			if _, isBasic := arg.PointerTo.(*gocode.BasicType); isBasic {
+				protoType = "optional " + protoType
+			}
 			grpcType := &gocode.Pointer{PointerTo: pointerToGrpcType}
 			return protoType, grpcType, nil
 		}
-- 
2.43.0


From 4af70cc32a1b659fc836f4f14eda233fd2aabc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 45/67] fix: gRPC code for names with underscores did not
 compile

The generated code assumed that protoc only makes the first letter of a name
upper case, but it also drops underscores.
---
 plugins/grpc/grpccodegen/marshallgen.go | 73 ++++++++++++++++++-------
 plugins/grpc/grpccodegen/protogen.go    |  2 +-
 2 files changed, 53 insertions(+), 22 deletions(-)

diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index 3c67125..d30b22d 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -3,7 +3,6 @@ package grpccodegen
 import (
 	"fmt"
 	"os"
-	"strings"
 	"text/template"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
@@ -118,27 +117,59 @@ func (b *gRPCProtoBuilder) GenerateMarshallingCode(outputFilePath string) error
 	return t.Execute(f, args)
 }
 
+// The name that protoc-gen-go gives to the field in Go
+func (f *gRPCField) goName() string {
+	return goCamelCase(f.Name)
+}
+
+// The name that protoc-gen-go gives to a field or message called s: underscores in front of lower case
+// letters are dropped, and the letters following them, like the first one, are upper case.
+func goCamelCase(s string) string {
+	isLower := func(i int) bool { return i < len(s) && s[i] >= 'a' && s[i] <= 'z' }
+	var name []byte
+	for i := 0; i < len(s); i++ {
+		switch {
+		case s[i] == '_' && i == 0:
+			name = append(name, 'X')
+		case s[i] == '_' && isLower(i+1):
+			// Dropped
+		case s[i] >= '0' && s[i] <= '9':
+			name = append(name, s[i])
+		default:
+			c := s[i]
+			if isLower(i) {
+				c -= 'a' - 'A'
+			}
+			name = append(name, c)
+			for ; isLower(i + 1); i++ {
+				name = append(name, s[i+1])
+			}
+		}
+	}
+	return string(name)
+}
+
 func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error) {
 	switch t := f.GRPCType.(type) {
 	case *gocode.UserType:
 		{
-			return fmt.Sprintf("msg.%s = new(%s).marshall(&%s%s)", strings.Title(f.Name), t.Name, obj, f.Name), nil
+			return fmt.Sprintf("msg.%s = new(%s).marshall(&%s%s)", f.goName(), t.Name, obj, f.Name), nil
 		}
 	case *gocode.BasicType:
 		{
-			return fmt.Sprintf("msg.%s = %s(%s%s)", strings.Title(f.Name), t.Name, obj, f.Name), nil
+			return fmt.Sprintf("msg.%s = %s(%s%s)", f.goName(), t.Name, obj, f.Name), nil
 		}
 	case *gocode.Pointer:
 		{
 			switch pt := t.PointerTo.(type) {
 			case *gocode.UserType:
-				return fmt.Sprintf("msg.%s = new(%s).marshall(%s%s)", strings.Title(f.Name), pt.Name, obj, f.Name), nil
+				return fmt.Sprintf("msg.%s = new(%s).marshall(%s%s)", f.goName(), pt.Name, obj, f.Name), nil
 			case *gocode.BasicType:
 				return fmt.Sprintf(`
 	if %s%s != nil {
 		v := %s(*%s%s)
 		msg.%s = &v
-	}`, obj, f.Name, pt.Name, obj, f.Name, strings.Title(f.Name)), nil
+	}`, obj, f.Name, pt.Name, obj, f.Name, f.goName()), nil
 			default:
 				return "", blueprint.Errorf("unsupported pointer type %v", pt)
 			}
@@ -152,17 +183,17 @@ func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error)
     msg.%s = make(map[%s]*%s)
 	for k, v := range %s%s {
 		msg.%s[%s(k)] = new(%s).marshall(&v)
-	}`, strings.Title(f.Name), t.KeyType, vt.Name, obj, f.Name, strings.Title(f.Name), t.KeyType, vt.Name), nil
+	}`, f.goName(), t.KeyType, vt.Name, obj, f.Name, f.goName(), t.KeyType, vt.Name), nil
 				}
 			case *gocode.BasicType:
 				if t.Equals(f.SrcType) {
-					return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
+					return fmt.Sprintf("msg.%s = %s%s", f.goName(), obj, f.Name), nil
 				}
 				return fmt.Sprintf(`
 	msg.%s = make(%s)
 	for k, v := range %s%s {
 		msg.%s[%s(k)] = %s(v)
-	}`, strings.Title(f.Name), t, obj, f.Name, strings.Title(f.Name), t.KeyType, vt), nil
+	}`, f.goName(), t, obj, f.Name, f.goName(), t.KeyType, vt), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented map value type %v", vt)
 			}
@@ -173,13 +204,13 @@ func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error)
 			case *gocode.UserType:
 				return fmt.Sprintf(
 					"for _, v := range %s%s { msg.%s = append(msg.%s, new(%s).marshall(&v)) }",
-					obj, f.Name, strings.Title(f.Name), strings.Title(f.Name), st.Name), nil
+					obj, f.Name, f.goName(), f.goName(), st.Name), nil
 			case *gocode.BasicType:
 				if t.Equals(f.SrcType) {
-					return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
+					return fmt.Sprintf("msg.%s = %s%s", f.goName(), obj, f.Name), nil
 				}
 				return fmt.Sprintf("for _, v := range %s%s { msg.%s = append(msg.%s, %s(v)) }",
-					obj, f.Name, strings.Title(f.Name), strings.Title(f.Name), st), nil
+					obj, f.Name, f.goName(), f.goName(), st), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented slice type %v", st)
 			}
@@ -192,11 +223,11 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 	switch t := f.GRPCType.(type) {
 	case *gocode.UserType:
 		{
-			return fmt.Sprintf("msg.%s.unmarshall(&%s%s)", strings.Title(f.Name), obj, f.Name), nil
+			return fmt.Sprintf("msg.%s.unmarshall(&%s%s)", f.goName(), obj, f.Name), nil
 		}
 	case *gocode.BasicType:
 		{
-			return fmt.Sprintf("%s%s = %v(msg.%s)", obj, f.Name, f.SrcType, strings.Title(f.Name)), nil
+			return fmt.Sprintf("%s%s = %v(msg.%s)", obj, f.Name, f.SrcType, f.goName()), nil
 		}
 	case *gocode.Pointer:
 		{
@@ -206,13 +237,13 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 	if msg.%s != nil {
 		%s%s = new(%s)
 		msg.%s.unmarshall(%s%s)
-	}`, strings.Title(f.Name), obj, f.Name, imports.NameOf(f.SrcType.(*gocode.Pointer).PointerTo), strings.Title(f.Name), obj, f.Name), nil
+	}`, f.goName(), obj, f.Name, imports.NameOf(f.SrcType.(*gocode.Pointer).PointerTo), f.goName(), obj, f.Name), nil
 			case *gocode.BasicType:
 				return fmt.Sprintf(`
 	if msg.%s != nil {
 		v := %v(*msg.%s)
 		%s%s = &v
-	}`, strings.Title(f.Name), f.SrcType.(*gocode.Pointer).PointerTo, strings.Title(f.Name), obj, f.Name), nil
+	}`, f.goName(), f.SrcType.(*gocode.Pointer).PointerTo, f.goName(), obj, f.Name), nil
 			default:
 				return "", blueprint.Errorf("unsupported pointer type %v", pt)
 			}
@@ -229,17 +260,17 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 		objv := %s%s[%s(k)]
 		v.unmarshall(&objv)
 		%s%s[%s(k)] = objv
-	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), obj, f.Name, src.KeyType, obj, f.Name, src.KeyType), nil
+	}`, obj, f.Name, imports.NameOf(f.SrcType), f.goName(), obj, f.Name, src.KeyType, obj, f.Name, src.KeyType), nil
 				}
 			case *gocode.BasicType:
 				if t.Equals(src) {
-					return fmt.Sprintf("%s%s = msg.%s", obj, f.Name, strings.Title(f.Name)), nil
+					return fmt.Sprintf("%s%s = msg.%s", obj, f.Name, f.goName()), nil
 				}
 				return fmt.Sprintf(`
 	%s%s = make(%s)
 	for k, v := range msg.%s {
 		%s%s[%s(k)] = %s(v)
-	}`, obj, f.Name, src, strings.Title(f.Name), obj, f.Name, src.KeyType, src.ValueType), nil
+	}`, obj, f.Name, src, f.goName(), obj, f.Name, src.KeyType, src.ValueType), nil
 			default:
 				return "", blueprint.Errorf("unsupported map value type %v", t)
 			}
@@ -252,13 +283,13 @@ func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, erro
 	%s%s = make(%s, len(msg.%s))
 	for i, v := range msg.%s {
 		v.unmarshall(&%s%s[i])
-	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), strings.Title(f.Name), obj, f.Name), nil
+	}`, obj, f.Name, imports.NameOf(f.SrcType), f.goName(), f.goName(), obj, f.Name), nil
 			case *gocode.BasicType:
 				if t.Equals(f.SrcType) {
-					return fmt.Sprintf("%s%s = msg.%s", obj, f.Name, strings.Title(f.Name)), nil
+					return fmt.Sprintf("%s%s = msg.%s", obj, f.Name, f.goName()), nil
 				}
 				return fmt.Sprintf("for _, v := range msg.%s { %s%s = append(%s%s, %s(v)) }",
-					strings.Title(f.Name), obj, f.Name, obj, f.Name, f.SrcType.(*gocode.Slice).SliceOf), nil
+					f.goName(), obj, f.Name, obj, f.Name, f.SrcType.(*gocode.Slice).SliceOf), nil
 			default:
 				return "", blueprint.Errorf("unsupported/unimplemented slice type %v", st)
 			}
diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index c40f941..4fedf33 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -195,7 +195,7 @@ func (b *gRPCProtoBuilder) newMessage(name string) *gRPCMessageDecl {
 	s.Builder = b
 	s.Name = name
 	s.FieldList = nil
-	s.GRPCType = &gocode.UserType{Name: name, Package: b.PackageName}
+	s.GRPCType = &gocode.UserType{Name: goCamelCase(name), Package: b.PackageName}
 	b.Messages[name] = s
 	return s
 }
-- 
2.43.0


From f545b9bc979112d1463a1ec9be9cc4f6a23e3fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 46/67] fix: gRPC messages of structs with the same name
 replaced each other

A service that uses structs of the same name from different packages got one
message for both of them.
---
 plugins/grpc/grpccodegen/protogen.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index 4fedf33..cdb500d 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -294,7 +294,15 @@ func (b *gRPCProtoBuilder) GetOrAddMessage(t *gocode.UserType) (*gRPCMessageDecl
 	}
 
 	// Create the message
-	msg := b.newMessage(fmt.Sprintf("%v_%v", b.Name, t.Name))
+	name := fmt.Sprintf("%v_%v", b.Name, t.Name)
+	for i := 2; ; i++ {
+		// Structs of different packages can have the same name
+		if _, exists := b.Messages[name]; !exists {
+			break
+		}
+		name = fmt.Sprintf("%v_%v%v", b.Name, t.Name, i)
+	}
+	msg := b.newMessage(name)
 	b.Structs[*t] = msg
 	for _, field := range struc.FieldsList {
 		// We ignore promoted and anonymous struct / interface extensions
-- 
2.43.0


From 4b7bc5e5cdb33a4db4d41e948bdf20e54a99f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 47/67] fix: generated HTTP clients copied a transport that
 others may be using

---
 plugins/http/httpcodegen/clientgen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/http/httpcodegen/clientgen.go b/plugins/http/httpcodegen/clientgen.go
index 8433785..cb8e896 100644
--- a/plugins/http/httpcodegen/clientgen.go
+++ b/plugins/http/httpcodegen/clientgen.go
@@ -57,12 +57,12 @@ func New_{{.Name}}(ctx context.Context, serverAddress string) (*{{.Name}}, error
 	if !ok {
 		return nil, errors.New("defaultRoundTripper not an *http.Transport")
 	}
-	defaultTransport := *defaultTransportPointer // dereference it to get a copy of the struct that the pointer points to
+	defaultTransport := defaultTransportPointer.Clone() // the default transport might be in use already
 	defaultTransport.MaxIdleConns = 60000
 	defaultTransport.MaxIdleConnsPerHost = 60000
 	defaultTransport.MaxConnsPerHost = 10000
 	client := &http.Client{
-		Transport: &defaultTransport,
+		Transport: defaultTransport,
 	}
 	c := &{{.Name}}{}
 	c.Client = client
-- 
2.43.0


From 7bd1f893dee65a7d538e0d26489e116e0bcd5324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 48/67] fix: tracing clients took an argument away from methods
 of modifiers outside of the tracing server

---
 plugins/opentelemetry/ir_ot_client.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/plugins/opentelemetry/ir_ot_client.go b/plugins/opentelemetry/ir_ot_client.go
index d187921..e9a3a9a 100644
--- a/plugins/opentelemetry/ir_ot_client.go
+++ b/plugins/opentelemetry/ir_ot_client.go
@@ -54,6 +54,9 @@ func (node *OpenTelemetryClientWrapper) genInterface(ctx ir.BuildContext) (*goco
 	}
 	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_OTClientWrapperInterface", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
 	for name, method := range i.Methods {
+		if !takesTraceCtx(method) {
+			continue
+		}
 		method.Arguments = method.Arguments[:len(method.Arguments)-1]
 		i.Methods[name] = method
 	}
@@ -64,6 +67,12 @@ func (node *OpenTelemetryClientWrapper) GetInterface(ctx ir.BuildContext) (servi
 	return node.genInterface(ctx)
 }
 
+// Methods that modifiers added on the outside of the server wrapper don't take the trace context as last argument
+func takesTraceCtx(method gocode.Func) bool {
+	n := len(method.Arguments)
+	return n > 0 && method.Arguments[n-1].Name == "traceCtx"
+}
+
 // Part of code generation compilation pass; creates the interface definition code for the wrapper,
 // and any new generated structs that are exposed and can be used by other IRNodes
 func (node *OpenTelemetryClientWrapper) AddInterfaces(builder golang.ModuleBuilder) error {
@@ -147,6 +156,10 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		ServerIfaceName: wrapped.BaseName + "_OTServerWrapperInterface",
 		Imports:         gogen.NewImports(pkg.Name),
 		GenSpans:        genClientSpans,
+		TakesTraceCtx:   make(map[string]bool),
+	}
+	for name, method := range wrapped.Methods {
+		server.TakesTraceCtx[name] = takesTraceCtx(method)
 	}
 
 	server.Imports.AddPackages("context", "go.opentelemetry.io/otel/trace")
@@ -166,6 +179,7 @@ type clientArgs struct {
 	ServerIfaceName string
 	Imports         *gogen.Imports
 	GenSpans        bool
+	TakesTraceCtx   map[string]bool
 }
 
 var clientSideTemplate = `// Blueprint: Auto-generated by OT Plugin
@@ -195,6 +209,7 @@ func New_{{.Name}}(ctx context.Context, client {{.ServerIfaceName}}, coll_client
 {{$basename := .Service.BaseName -}}
 {{$receiver := .Name -}}
 {{$genSpans := .GenSpans -}}
+{{$takesTraceCtx := .TakesTraceCtx -}}
 {{range $_, $f := .Impl.Methods}}
 func (handler *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
 	span := trace.SpanFromContext(ctx)
@@ -204,8 +219,12 @@ func (handler *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.C
 	ctx, span = tr.Start(ctx, "{{$basename}}Client_{{$f.Name}}")
 	defer span.End()
 	{{end}}
+	{{if index $takesTraceCtx $f.Name -}}
 	trace_ctx, _ := span.SpanContext().MarshalJSON()
 	{{RetVars $f "err"}} = handler.Client.{{$f.Name}}({{ArgVars $f "ctx"}}, string(trace_ctx))
+	{{else -}}
+	{{RetVars $f "err"}} = handler.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+	{{end -}}
 	if err != nil {
 		span.RecordError(err)
 	}
-- 
2.43.0


From f8b5f930b2d8c2e7278aaaeb87a5ed54f8385b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 49/67] fix: services traced with and without client spans
 shared the code of either

---
 plugins/opentelemetry/ir_ot_client.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/plugins/opentelemetry/ir_ot_client.go b/plugins/opentelemetry/ir_ot_client.go
index e9a3a9a..bc575e8 100644
--- a/plugins/opentelemetry/ir_ot_client.go
+++ b/plugins/opentelemetry/ir_ot_client.go
@@ -52,7 +52,7 @@ func (node *OpenTelemetryClientWrapper) genInterface(ctx ir.BuildContext) (*goco
 	if !valid {
 		return nil, blueprint.Errorf("OTClientWrapper expected build context to be a ModuleBuiler, got %v", ctx)
 	}
-	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_OTClientWrapperInterface", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
+	i := gocode.CopyServiceInterface(iface.BaseName+node.generatedName()+"Interface", module_ctx.Info().Name+"/"+node.outputPackage, iface)
 	for name, method := range i.Methods {
 		if !takesTraceCtx(method) {
 			continue
@@ -67,6 +67,14 @@ func (node *OpenTelemetryClientWrapper) GetInterface(ctx ir.BuildContext) (servi
 	return node.genInterface(ctx)
 }
 
+// The code of clients that generate spans and of those that don't is different
+func (node *OpenTelemetryClientWrapper) generatedName() string {
+	if node.GenClientSpans {
+		return "_OTClientWrapper"
+	}
+	return "_OTClientWrapperWithoutSpans"
+}
+
 // Methods that modifiers added on the outside of the server wrapper don't take the trace context as last argument
 func takesTraceCtx(method gocode.Func) bool {
 	n := len(method.Arguments)
@@ -102,7 +110,7 @@ func (node *OpenTelemetryClientWrapper) GenerateFuncs(builder golang.ModuleBuild
 		return nil
 	}
 
-	return generateClientHandler(builder, wrapped_iface, impl_iface, coll_iface, node.outputPackage, node.GenClientSpans)
+	return generateClientHandler(builder, wrapped_iface, impl_iface, coll_iface, node.outputPackage, node.generatedName(), node.GenClientSpans)
 }
 
 // Part of code generation compilation pass; provides instantiation snippet
@@ -125,7 +133,7 @@ func (node *OpenTelemetryClientWrapper) AddInstantiation(builder golang.Namespac
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_OTClientWrapper", iface.BaseName),
+			Name: "New_" + iface.BaseName + node.generatedName(),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -140,7 +148,7 @@ func (node *OpenTelemetryClientWrapper) AddInstantiation(builder golang.Namespac
 func (node *OpenTelemetryClientWrapper) ImplementsGolangNode()    {}
 func (node *OpenTelemetryClientWrapper) ImplementsGolangService() {}
 
-func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, impl *gocode.ServiceInterface, coll_iface *gocode.ServiceInterface, outputPackage string, genClientSpans bool) error {
+func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, impl *gocode.ServiceInterface, coll_iface *gocode.ServiceInterface, outputPackage string, name string, genClientSpans bool) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -151,7 +159,7 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		Service:         wrapped,
 		Impl:            impl,
 		CollIface:       coll_iface,
-		Name:            wrapped.BaseName + "_OTClientWrapper",
+		Name:            wrapped.BaseName + name,
 		IfaceName:       impl.Name,
 		ServerIfaceName: wrapped.BaseName + "_OTServerWrapperInterface",
 		Imports:         gogen.NewImports(pkg.Name),
-- 
2.43.0


From ddb8322463d3e2ccc9c8967ca6a0fe4248920d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 50/67] fix: services traced with and without client spans had
 different interfaces; tracing clients could not call modifiers outside of the
 tracing server

---
 plugins/opentelemetry/ir_ot_client.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/plugins/opentelemetry/ir_ot_client.go b/plugins/opentelemetry/ir_ot_client.go
index bc575e8..fdecd86 100644
--- a/plugins/opentelemetry/ir_ot_client.go
+++ b/plugins/opentelemetry/ir_ot_client.go
@@ -52,7 +52,7 @@ func (node *OpenTelemetryClientWrapper) genInterface(ctx ir.BuildContext) (*goco
 	if !valid {
 		return nil, blueprint.Errorf("OTClientWrapper expected build context to be a ModuleBuiler, got %v", ctx)
 	}
-	i := gocode.CopyServiceInterface(iface.BaseName+node.generatedName()+"Interface", module_ctx.Info().Name+"/"+node.outputPackage, iface)
+	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_OTClientWrapperInterface", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
 	for name, method := range i.Methods {
 		if !takesTraceCtx(method) {
 			continue
@@ -106,7 +106,12 @@ func (node *OpenTelemetryClientWrapper) GenerateFuncs(builder golang.ModuleBuild
 	}
 
 	// Only generate code once
-	if builder.Visited(impl_iface.Name + ".ot_client_impl") {
+	if !builder.Visited(impl_iface.Name + ".ot_client_iface") {
+		if err := generateClientSideInterfaces(builder, impl_iface, node.outputPackage); err != nil {
+			return err
+		}
+	}
+	if builder.Visited(wrapped_iface.BaseName + node.generatedName() + ".ot_client_impl") {
 		return nil
 	}
 
@@ -161,7 +166,7 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		CollIface:       coll_iface,
 		Name:            wrapped.BaseName + name,
 		IfaceName:       impl.Name,
-		ServerIfaceName: wrapped.BaseName + "_OTServerWrapperInterface",
+		ClientIfaceName: wrapped.BaseName + name + "Client",
 		Imports:         gogen.NewImports(pkg.Name),
 		GenSpans:        genClientSpans,
 		TakesTraceCtx:   make(map[string]bool),
@@ -172,8 +177,8 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 
 	server.Imports.AddPackages("context", "go.opentelemetry.io/otel/trace")
 
-	slog.Info(fmt.Sprintf("Generating %v/%v", server.Package.PackageName, impl.Name))
-	outputFile := filepath.Join(server.Package.Path, impl.Name+".go")
+	slog.Info(fmt.Sprintf("Generating %v/%v", server.Package.PackageName, server.Name))
+	outputFile := filepath.Join(server.Package.Path, server.Name+".go")
 	return gogen.ExecuteTemplateToFile("OTClientWrapper", clientSideTemplate, server, outputFile)
 }
 
@@ -184,7 +189,7 @@ type clientArgs struct {
 	CollIface       *gocode.ServiceInterface
 	Name            string
 	IfaceName       string
-	ServerIfaceName string
+	ClientIfaceName string
 	Imports         *gogen.Imports
 	GenSpans        bool
 	TakesTraceCtx   map[string]bool
@@ -195,18 +200,18 @@ package {{.Package.ShortName}}
 
 {{.Imports}}
 
-type {{.IfaceName}} interface {
-	{{range $_, $f := .Impl.Methods -}}
+type {{.ClientIfaceName}} interface {
+	{{range $_, $f := .Service.Methods -}}
 	{{Signature $f}}
 	{{end}}
 }
 
 type {{.Name}} struct {
-	Client {{.ServerIfaceName}}
+	Client {{.ClientIfaceName}}
 	CollClient {{.Imports.NameOf .CollIface.UserType}}
 }
 
-func New_{{.Name}}(ctx context.Context, client {{.ServerIfaceName}}, coll_client {{.Imports.NameOf .CollIface.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}}(ctx context.Context, client {{.ClientIfaceName}}, coll_client {{.Imports.NameOf .CollIface.UserType}}) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
 	handler.Client = client
 	handler.CollClient = coll_client
-- 
2.43.0


From 2e63edb38aba91e97df4d58549a025e7af32ffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:20 +0000
Subject: [PATCH 51/67] fix: run.sh started the first process again instead of
 the others in a directory with a space in its name

---
 plugins/linuxcontainer/linuxgen/runfunc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/linuxcontainer/linuxgen/runfunc.go b/plugins/linuxcontainer/linuxgen/runfunc.go
index 3180c60..2b00917 100644
--- a/plugins/linuxcontainer/linuxgen/runfunc.go
+++ b/plugins/linuxcontainer/linuxgen/runfunc.go
@@ -50,7 +50,7 @@ type runFuncTemplateArgs struct {
 }
 
 var runFuncTemplate = `{{RunFuncName .Name}}() {
-	cd $WORKSPACE_DIR
+	cd "$WORKSPACE_DIR"
 	
 	{{ range $i, $dep := .Dependencies -}}
 	{{Get $dep.Name}}
-- 
2.43.0


From 4cbfe268028f598835d37805e141e0247e10d271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:20 +0000
Subject: [PATCH 52/67] fix: AssignPorts assigned port 0 when port 65535 was
 taken

---
 blueprint/pkg/coreplugins/address/portassignment.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blueprint/pkg/coreplugins/address/portassignment.go b/blueprint/pkg/coreplugins/address/portassignment.go
index 5b02750..2f4a394 100644
--- a/blueprint/pkg/coreplugins/address/portassignment.go
+++ b/blueprint/pkg/coreplugins/address/portassignment.go
@@ -76,6 +76,9 @@ func AssignPorts(binds []*BindConfig) (preassigned []*BindConfig, assigned []*Bi
 				break
 			}
 			candidatePort++
+			if candidatePort == 0 {
+				candidatePort++ // wrapped around; 0 is not a port
+			}
 		}
 	}
 
-- 
2.43.0


From 24eed5ea57e0ed0a85bbd3b4afe41ed4dc93eb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 53/67] fix: containers of a pod that only call other pods did
 not get their addresses

---
 plugins/kubernetes/kubepod/deploygen/deployfile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/kubernetes/kubepod/deploygen/deployfile.go b/plugins/kubernetes/kubepod/deploygen/deployfile.go
index 776ec08..cd63927 100644
--- a/plugins/kubernetes/kubepod/deploygen/deployfile.go
+++ b/plugins/kubernetes/kubepod/deploygen/deployfile.go
@@ -169,7 +169,7 @@ spec:
         - name: {{KubernetesName .InstanceName}}
           image: {{.Image}}
           imagePullPolicy: Always
-          {{- if .Config}}
+          {{- if or .Config .ConfigMap}}
           env:
           {{- range $name, $value := .Config}}
             - name: {{$name}}
-- 
2.43.0


From 4cdd6b08cfeebf184e951a34b8ae58318d47cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 54/67] fix: generated .env files had ports below 1024, or 0,
 when there were not enough ports above the first

---
 plugins/environment/wiring.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugins/environment/wiring.go b/plugins/environment/wiring.go
index f298cdb..f1c60e4 100644
--- a/plugins/environment/wiring.go
+++ b/plugins/environment/wiring.go
@@ -57,6 +57,7 @@ package environment
 
 import (
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"sort"
@@ -64,6 +65,7 @@ import (
 
 	"golang.org/x/exp/slog"
 
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/plugins/linux"
@@ -137,6 +139,9 @@ func generateEnv(outputFile string, addrs map[string]*addrconfig, port uint16, l
 		keys = append(keys, k)
 	}
 	sort.Strings(keys)
+	if int(port)+len(keys)-1 > math.MaxUint16 {
+		return blueprint.Errorf("cannot assign ports to %v addresses starting from port %v: the highest port is %v", len(keys), port, math.MaxUint16)
+	}
 	for _, k := range keys {
 		addr := addrs[k]
 		if addr.bind != nil {
-- 
2.43.0


From 5c4e427b0cea4bd02dad20e5081b5109b3ea9ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:43 +0000
Subject: [PATCH 55/67] fix: adding a return value or argument to a copy of a
 service interface overwrote the parsed interface

---
 plugins/golang/gocode/service.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plugins/golang/gocode/service.go b/plugins/golang/gocode/service.go
index 3f523ad..6d678da 100644
--- a/plugins/golang/gocode/service.go
+++ b/plugins/golang/gocode/service.go
@@ -4,6 +4,7 @@ package gocode
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/service"
@@ -82,11 +83,12 @@ func (f *Func) GetReturns() []service.Variable {
 }
 
 func (f *Func) AddArgument(variable Variable) {
-	f.Arguments = append(f.Arguments, variable)
+	// Funcs are copied by value, so the underlying array might be shared with other Funcs
+	f.Arguments = append(slices.Clip(f.Arguments), variable)
 }
 
 func (f *Func) AddRetVar(variable Variable) {
-	f.Returns = append(f.Returns, variable)
+	f.Returns = append(slices.Clip(f.Returns), variable)
 }
 
 func (v *Variable) GetName() string {
-- 
2.43.0


From 7afbe22d240f6e91b933af3e59261b34869dd6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:36 +0000
Subject: [PATCH 56/67] fix: registering the first client discarded a default
 that was already set

---
 runtime/core/registry/registry.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/core/registry/registry.go b/runtime/core/registry/registry.go
index 8977373..bbbb94d 100644
--- a/runtime/core/registry/registry.go
+++ b/runtime/core/registry/registry.go
@@ -38,7 +38,8 @@ func (r *ServiceRegistry[T]) SetDefault(name string) {
 
 func (r *ServiceRegistry[T]) Register(name string, build func(ctx context.Context) (T, error)) {
 	slog.Info(fmt.Sprintf("ServiceRegistry \"%v\" added client \"%v\"", r.name, name))
-	if len(r.registered) == 0 {
+	// The first registered client is the default, unless a default was already set
+	if len(r.registered) == 0 && r.defaultBuildFunc == "" {
 		r.defaultBuildFunc = name
 	}
 	r.registered[name] = build
-- 
2.43.0


From bc6ccfdccc349fc0d25b495a1fa507720228f74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:36 +0000
Subject: [PATCH 57/67] fix: simplenosqldb array conditions did not match
 arrays within arrays

---
 runtime/plugins/simplenosqldb/query/parsefilter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index 1f5f534..15b96f1 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -193,8 +193,8 @@ func parseFieldValue(selector string, value any) (Filter, error) {
 		return nil, err
 	}
 	if _, isA := value.(bson.A); isA {
-		// Exact match an array value
-		return Lookup(selector, filter), nil
+		// Exact match an array value, or an array within an array
+		return Or(Lookup(selector, filter), Lookup(selector, Broadcast(filter))), nil
 	}
 	if value == nil {
 		// A missing field counts as null
-- 
2.43.0


From 7a825f43d8d60b4c64145f1bf123569e76cead98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:10 +0000
Subject: [PATCH 58/67] fix: redis Mget panicked when a key does not exist

---
 runtime/plugins/redis/cache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/plugins/redis/cache.go b/runtime/plugins/redis/cache.go
index 399669e..d2ac567 100644
--- a/runtime/plugins/redis/cache.go
+++ b/runtime/plugins/redis/cache.go
@@ -64,6 +64,10 @@ func (r *RedisCache) Mget(ctx context.Context, keys []string, values []interface
 		return err
 	}
 	for idx, res := range result {
+		if res == nil {
+			// Key doesn't exist
+			continue
+		}
 		err := json.Unmarshal([]byte(res.(string)), values[idx])
 		if err != nil {
 			return err
-- 
2.43.0


From 6e692ccbf4abbc3c4ac81ac529290484c3f897fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:10 +0000
Subject: [PATCH 59/67] fix: redis and memcached Mget and Mset panicked or
 dropped keys when keys and values have different lengths

---
 runtime/plugins/memcached/cache.go | 7 +++++++
 runtime/plugins/redis/cache.go     | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/runtime/plugins/memcached/cache.go b/runtime/plugins/memcached/cache.go
index ef91b11..b2b007f 100644
--- a/runtime/plugins/memcached/cache.go
+++ b/runtime/plugins/memcached/cache.go
@@ -4,6 +4,7 @@ package memcached
 import (
 	"context"
 	"encoding/json"
+	"fmt"
 	"sync"
 
 	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
@@ -59,6 +60,9 @@ func (m *Memcached) Delete(ctx context.Context, key string) error {
 
 // Implements the backend.Cache interface
 func (m *Memcached) Mget(ctx context.Context, keys []string, values []interface{}) error {
+	if len(keys) != len(values) {
+		return fmt.Errorf("mget received keys and values of different lengths %v and %v", len(keys), len(values))
+	}
 	val_map, err := m.Client.GetMulti(keys)
 	if err != nil {
 		return err
@@ -76,6 +80,9 @@ func (m *Memcached) Mget(ctx context.Context, keys []string, values []interface{
 
 // Implements the backend.Cache interface
 func (m *Memcached) Mset(ctx context.Context, keys []string, values []interface{}) error {
+	if len(keys) != len(values) {
+		return fmt.Errorf("mset received keys and values of different lengths %v and %v", len(keys), len(values))
+	}
 	var wg sync.WaitGroup
 	wg.Add(len(keys))
 	err_chan := make(chan error, len(keys))
diff --git a/runtime/plugins/redis/cache.go b/runtime/plugins/redis/cache.go
index d2ac567..21d0970 100644
--- a/runtime/plugins/redis/cache.go
+++ b/runtime/plugins/redis/cache.go
@@ -4,6 +4,7 @@ package redis
 import (
 	"context"
 	"encoding/json"
+	"fmt"
 
 	redis_impl "github.com/go-redis/redis/v8"
 )
@@ -59,6 +60,9 @@ func (r *RedisCache) Delete(ctx context.Context, key string) error {
 
 // Implements the backend.Cache interface
 func (r *RedisCache) Mget(ctx context.Context, keys []string, values []interface{}) error {
+	if len(keys) != len(values) {
+		return fmt.Errorf("mget received keys and values of different lengths %v and %v", len(keys), len(values))
+	}
 	result, err := r.client.MGet(ctx, keys...).Result()
 	if err != nil {
 		return err
@@ -78,6 +82,9 @@ func (r *RedisCache) Mget(ctx context.Context, keys []string, values []interface
 
 // Implements the backend.Cache interface
 func (r *RedisCache) Mset(ctx context.Context, keys []string, values []interface{}) error {
+	if len(keys) != len(values) {
+		return fmt.Errorf("mset received keys and values of different lengths %v and %v", len(keys), len(values))
+	}
 	kv_map := make(map[string]string)
 	for idx, key := range keys {
 		val, err := json.Marshal(values[idx])
-- 
2.43.0


From 6700e18596c3ab75caf4f28c234c236e02b4d87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:10 +0000
Subject: [PATCH 60/67] fix: redis Mget and Mset of no keys failed

---
 runtime/plugins/redis/cache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/plugins/redis/cache.go b/runtime/plugins/redis/cache.go
index 21d0970..c5c1503 100644
--- a/runtime/plugins/redis/cache.go
+++ b/runtime/plugins/redis/cache.go
@@ -63,6 +63,9 @@ func (r *RedisCache) Mget(ctx context.Context, keys []string, values []interface
 	if len(keys) != len(values) {
 		return fmt.Errorf("mget received keys and values of different lengths %v and %v", len(keys), len(values))
 	}
+	if len(keys) == 0 {
+		return nil
+	}
 	result, err := r.client.MGet(ctx, keys...).Result()
 	if err != nil {
 		return err
@@ -85,6 +88,9 @@ func (r *RedisCache) Mset(ctx context.Context, keys []string, values []interface
 	if len(keys) != len(values) {
 		return fmt.Errorf("mset received keys and values of different lengths %v and %v", len(keys), len(values))
 	}
+	if len(keys) == 0 {
+		return nil
+	}
 	kv_map := make(map[string]string)
 	for idx, key := range keys {
 		val, err := json.Marshal(values[idx])
-- 
2.43.0


From 04dc381319b16989f0313281934a5982b97a5d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:10 +0000
Subject: [PATCH 61/67] fix: memcached Delete of a key that does not exist was
 an error, unlike with the other caches

---
 runtime/plugins/memcached/cache.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/runtime/plugins/memcached/cache.go b/runtime/plugins/memcached/cache.go
index b2b007f..be65865 100644
--- a/runtime/plugins/memcached/cache.go
+++ b/runtime/plugins/memcached/cache.go
@@ -55,7 +55,12 @@ func (m *Memcached) Incr(ctx context.Context, key string) (int64, error) {
 
 // Implements the backend.Cache interface
 func (m *Memcached) Delete(ctx context.Context, key string) error {
-	return m.Client.Delete(key)
+	err := m.Client.Delete(key)
+	if err == memcache.ErrCacheMiss {
+		// Nothing to delete
+		return nil
+	}
+	return err
 }
 
 // Implements the backend.Cache interface
-- 
2.43.0


From 42f0cc4291d0b1db479c374778da9aa0b2c0681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:10 +0000
Subject: [PATCH 62/67] fix: memcached Incr of a key that does not exist was an
 error, unlike with the other caches

---
 runtime/plugins/memcached/cache.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/runtime/plugins/memcached/cache.go b/runtime/plugins/memcached/cache.go
index be65865..efc6e41 100644
--- a/runtime/plugins/memcached/cache.go
+++ b/runtime/plugins/memcached/cache.go
@@ -49,8 +49,20 @@ func (m *Memcached) Get(ctx context.Context, key string, value interface{}) (boo
 
 // Implements the backend.Cache interface
 func (m *Memcached) Incr(ctx context.Context, key string) (int64, error) {
-	val, err := m.Client.Increment(key, 1)
-	return int64(val), err
+	for {
+		val, err := m.Client.Increment(key, 1)
+		if err != memcache.ErrCacheMiss {
+			return int64(val), err
+		}
+		// Key doesn't exist; count from zero unless somebody else creates it first
+		err = m.Client.Add(&memcache.Item{Key: key, Value: []byte("1")})
+		if err == nil {
+			return 1, nil
+		}
+		if err != memcache.ErrNotStored {
+			return 0, err
+		}
+	}
 }
 
 // Implements the backend.Cache interface
-- 
2.43.0


From 0f9299ec4ebaec9c1262c542f061722cf1f1ae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:10 +0000
Subject: [PATCH 63/67] fix: rabbitmq Pop lost every item that is not a string,
 a bool or a float64

Items were decoded to any and then assigned, which fails for integers, structs and most else.
---
 runtime/plugins/rabbitmq/queue.go | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/runtime/plugins/rabbitmq/queue.go b/runtime/plugins/rabbitmq/queue.go
index 1768eaa..746994e 100644
--- a/runtime/plugins/rabbitmq/queue.go
+++ b/runtime/plugins/rabbitmq/queue.go
@@ -5,7 +5,6 @@ import (
 	"context"
 	"encoding/json"
 
-	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
 	amqp "github.com/rabbitmq/amqp091-go"
 )
 
@@ -43,12 +42,6 @@ func getBytes(key interface{}) ([]byte, error) {
 	return json.Marshal(key)
 }
 
-func decodeBytes(val []byte) (interface{}, error) {
-	var res interface{}
-	err := json.Unmarshal(val, &res)
-	return res, err
-}
-
 // Push implements backend.Queue
 func (q *RabbitMQ) Push(ctx context.Context, item interface{}) (bool, error) {
 	raw_bytes, err := getBytes(item)
@@ -63,20 +56,12 @@ func (q *RabbitMQ) Push(ctx context.Context, item interface{}) (bool, error) {
 func (q *RabbitMQ) Pop(ctx context.Context, dst interface{}) (bool, error) {
 	select {
 	case v := <-q.msgs:
-		val, err := decodeBytes(v.Body)
-		if err != nil {
-			return true, err
-		}
-		return true, backend.CopyResult(val, dst)
+		return true, json.Unmarshal(v.Body, dst)
 	default:
 		{
 			select {
 			case v := <-q.msgs:
-				val, err := decodeBytes(v.Body)
-				if err != nil {
-					return true, err
-				}
-				return true, backend.CopyResult(val, dst)
+				return true, json.Unmarshal(v.Body, dst)
 			case <-ctx.Done():
 				return false, nil
 			}
-- 
2.43.0


From 0f88cdaf6db0f75b4da39a464e8cbc517c1df430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:10 +0000
Subject: [PATCH 64/67] fix: rabbitmq Push and Pop reported success after the
 connection to the server was lost

---
 runtime/plugins/rabbitmq/queue.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/runtime/plugins/rabbitmq/queue.go b/runtime/plugins/rabbitmq/queue.go
index 746994e..9ef242f 100644
--- a/runtime/plugins/rabbitmq/queue.go
+++ b/runtime/plugins/rabbitmq/queue.go
@@ -49,22 +49,32 @@ func (q *RabbitMQ) Push(ctx context.Context, item interface{}) (bool, error) {
 		return false, err
 	}
 	publish_msg := amqp.Publishing{ContentType: "text/plain", Body: raw_bytes}
-	return true, q.ch.Publish("", q.queue.Name, false, false, publish_msg)
+	err = q.ch.Publish("", q.queue.Name, false, false, publish_msg)
+	return err == nil, err
 }
 
 // Pop implements backend.Queue
 func (q *RabbitMQ) Pop(ctx context.Context, dst interface{}) (bool, error) {
 	select {
-	case v := <-q.msgs:
-		return true, json.Unmarshal(v.Body, dst)
+	case v, ok := <-q.msgs:
+		return receive(v, ok, dst)
 	default:
 		{
 			select {
-			case v := <-q.msgs:
-				return true, json.Unmarshal(v.Body, dst)
+			case v, ok := <-q.msgs:
+				return receive(v, ok, dst)
 			case <-ctx.Done():
 				return false, nil
 			}
 		}
 	}
 }
+
+// Decodes a message received from the queue into dst; ok is false if there will be no more messages
+// because the connection has been closed.
+func receive(msg amqp.Delivery, ok bool, dst interface{}) (bool, error) {
+	if !ok {
+		return false, amqp.ErrClosed
+	}
+	return true, json.Unmarshal(msg.Body, dst)
+}
-- 
2.43.0


From 36bf80f4440f0c9ad19d6c35b27a3ab192ab71fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:10 +0000
Subject: [PATCH 65/67] fix: messages of a rabbitmq queue were lost to clients
 that only push

---
 runtime/plugins/rabbitmq/queue.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/runtime/plugins/rabbitmq/queue.go b/runtime/plugins/rabbitmq/queue.go
index 9ef242f..f6509f8 100644
--- a/runtime/plugins/rabbitmq/queue.go
+++ b/runtime/plugins/rabbitmq/queue.go
@@ -4,6 +4,7 @@ package rabbitmq
 import (
 	"context"
 	"encoding/json"
+	"sync"
 
 	amqp "github.com/rabbitmq/amqp091-go"
 )
@@ -14,6 +15,7 @@ type RabbitMQ struct {
 	queue amqp.Queue
 	ch    *amqp.Channel
 	conn  *amqp.Connection
+	mu    sync.Mutex // protects msgs until it is set
 	msgs  <-chan amqp.Delivery
 }
 
@@ -31,11 +33,23 @@ func NewRabbitMQ(ctx context.Context, addr string, queue_name string) (*RabbitMQ
 	if err != nil {
 		return nil, err
 	}
-	msgs, err := ch.Consume(q.Name, "", true, false, false, false, nil)
+	return &RabbitMQ{name: queue_name, conn: conn, ch: ch, queue: q}, nil
+}
+
+// Starts consuming from the queue.  The server distributes the queue's messages to all of its consumers,
+// so a client must not be one before it pops.
+func (q *RabbitMQ) consume() error {
+	q.mu.Lock()
+	defer q.mu.Unlock()
+	if q.msgs != nil {
+		return nil
+	}
+	msgs, err := q.ch.Consume(q.queue.Name, "", true, false, false, false, nil)
 	if err != nil {
-		return nil, err
+		return err
 	}
-	return &RabbitMQ{name: queue_name, conn: conn, ch: ch, queue: q, msgs: msgs}, nil
+	q.msgs = msgs
+	return nil
 }
 
 func getBytes(key interface{}) ([]byte, error) {
@@ -55,6 +69,9 @@ func (q *RabbitMQ) Push(ctx context.Context, item interface{}) (bool, error) {
 
 // Pop implements backend.Queue
 func (q *RabbitMQ) Pop(ctx context.Context, dst interface{}) (bool, error) {
+	if err := q.consume(); err != nil {
+		return false, err
+	}
 	select {
 	case v, ok := <-q.msgs:
 		return receive(v, ok, dst)
-- 
2.43.0


From c80b0145b2aebaeb88e9b1064646879fbd166fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:10 +0000
Subject: [PATCH 66/67] fix: mongodb Upsert merged the document into the
 existing one instead of replacing it

---
 runtime/plugins/mongodb/nosqldb.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/runtime/plugins/mongodb/nosqldb.go b/runtime/plugins/mongodb/nosqldb.go
index b8dab45..a319b92 100644
--- a/runtime/plugins/mongodb/nosqldb.go
+++ b/runtime/plugins/mongodb/nosqldb.go
@@ -153,9 +153,8 @@ func (mc *MongoCollection) UpdateMany(ctx context.Context, filter bson.D, update
 
 // Implements the [backend.NoSQLCollection] interface
 func (mc *MongoCollection) Upsert(ctx context.Context, filter bson.D, document interface{}) (bool, error) {
-	update := bson.D{{"$set", document}}
-	opts := options.Update().SetUpsert(true)
-	result, err := mc.collection.UpdateOne(ctx, filter, update, opts)
+	opts := options.Replace().SetUpsert(true)
+	result, err := mc.collection.ReplaceOne(ctx, filter, document, opts)
 	if result == nil {
 		return false, err
 	} else {
-- 
2.43.0


From b206f6d3ef81f6ddab3a058b390582cd0705fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:10 +0000
Subject: [PATCH 67/67] fix: mongodb cursors of FindMany had no One and those
 of FindOne no All

---
 runtime/plugins/mongodb/nosqldb.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/runtime/plugins/mongodb/nosqldb.go b/runtime/plugins/mongodb/nosqldb.go
index a319b92..99dde32 100644
--- a/runtime/plugins/mongodb/nosqldb.go
+++ b/runtime/plugins/mongodb/nosqldb.go
@@ -200,6 +200,11 @@ func (mr *MongoCursor) One(ctx context.Context, obj interface{}) (bool, error) {
 		} else {
 			return false, v.Err()
 		}
+	case *mongo.Cursor:
+		if !v.Next(ctx) {
+			return false, v.Err()
+		}
+		return true, v.Decode(obj)
 	default:
 		return false, errors.New("result has no decode method")
 	}
@@ -211,6 +216,19 @@ func (mr *MongoCursor) All(ctx context.Context, objs interface{}) error {
 	switch v := mr.underlyingResult.(type) {
 	case *mongo.Cursor:
 		return v.All(ctx, objs)
+	case *mongo.SingleResult:
+		var docs []interface{}
+		doc, err := v.Raw()
+		if err == nil {
+			docs = append(docs, doc)
+		} else if err != mongo.ErrNoDocuments {
+			return err
+		}
+		cursor, err := mongo.NewCursorFromDocuments(docs, nil, nil)
+		if err != nil {
+			return err
+		}
+		return cursor.All(ctx, objs)
 	default:
 		return errors.New("result does not return a Cursor")
 	}
-- 
2.43.0

