From 7822a8ece7a2ae7113d8d72737f3b7fcd57dbded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:32 +0000
Subject: [PATCH 01/45] fix: do not cache the outcome of failed requests

A failed hydration or rendering was stored in the cache, so every later
request for the same key was answered with a nil filing or an empty body.
---
 pkg/cache/cache.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/cache/cache.go b/pkg/cache/cache.go
index a0cdfd3..4b16823 100644
--- a/pkg/cache/cache.go
+++ b/pkg/cache/cache.go
@@ -49,6 +49,9 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 	}
 	lock.RUnlock()
 	byteArr, err := renderables.MarshalExpressable(name, contextref, h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -57,7 +60,7 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 		defer lock.Unlock()
 		appCache.Set(cachekey, byteArr, gocache.DefaultExpiration)
 	}()
-	return byteArr, err
+	return byteArr, nil
 }
 
 func MarshalRenderable(id string, hash string) ([]byte, error) {
@@ -91,6 +94,9 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 		}
 	}
 	byteArr, err := renderables.MarshalRenderable(hash, h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -99,7 +105,7 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 		defer lock.Unlock()
 		appCache.Set(id+"/"+hash, byteArr, gocache.DefaultExpiration)
 	}()
-	return byteArr, err
+	return byteArr, nil
 }
 
 func MarshalCatalog(id string) ([]byte, error) {
@@ -117,6 +123,9 @@ func MarshalCatalog(id string) ([]byte, error) {
 	}
 	lock.RUnlock()
 	byteArr, err := renderables.MarshalCatalog(h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -125,7 +134,7 @@ func MarshalCatalog(id string) ([]byte, error) {
 		defer lock.Unlock()
 		appCache.Set(id+"/", byteArr, gocache.DefaultExpiration)
 	}()
-	return byteArr, err
+	return byteArr, nil
 }
 
 func hydratable(id string) (*hydratables.Hydratable, error) {
@@ -143,6 +152,9 @@ func hydratable(id string) (*hydratables.Hydratable, error) {
 		return nil, fmt.Errorf("failed to discover folder, %v", err)
 	}
 	ret, err := hydratables.Hydrate(folder)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -151,5 +163,5 @@ func hydratable(id string) (*hydratables.Hydratable, error) {
 		defer lock.Unlock()
 		appCache.Set(id, ret, gocache.DefaultExpiration)
 	}()
-	return ret, err
+	return ret, nil
 }
-- 
2.43.0


From 24a758fbfdcf15b2ace67e50be93980c1f2cf672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:05 +0000
Subject: [PATCH 02/45] fix: keep the cache keys of different requests apart

The key of a fact joined its name and context with a colon, which names
contain themselves, so name "a:b" with context "c" shared an entry with
name "a" and context "b:c". Keys of folders, catalogs and renderings were
plain concatenations in the same key space as global files such as
names.json.
---
 pkg/cache/cache.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/pkg/cache/cache.go b/pkg/cache/cache.go
index 4b16823..e7de7da 100644
--- a/pkg/cache/cache.go
+++ b/pkg/cache/cache.go
@@ -1,9 +1,7 @@
 package cache
 
 import (
-	"encoding/hex"
 	"fmt"
-	"hash/fnv"
 	"path/filepath"
 	"sync"
 
@@ -36,9 +34,7 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 	if err != nil {
 		return nil, err
 	}
-	hash := fnv.New128a()
-	hash.Write([]byte(id + "/facts/" + name + ":" + contextref))
-	cachekey := hex.EncodeToString(hash.Sum([]byte{}))
+	cachekey := fmt.Sprintf("expressable/%q/%q/%q", id, name, contextref)
 	lock.RLock()
 	if !dry {
 		if x, found := appCache.Get(cachekey); found {
@@ -64,9 +60,10 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 }
 
 func MarshalRenderable(id string, hash string) ([]byte, error) {
+	cachekey := fmt.Sprintf("renderable/%q/%q", id, hash)
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id + "/" + hash); found {
+		if x, found := appCache.Get(cachekey); found {
 			ret := x.([]byte)
 			lock.RUnlock()
 			return ret, nil
@@ -88,7 +85,7 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 			go func() {
 				lock.Lock()
 				defer lock.Unlock()
-				appCache.Set(id+"/"+hash, data, gocache.DefaultExpiration)
+				appCache.Set(cachekey, data, gocache.DefaultExpiration)
 			}()
 			return data, nil
 		}
@@ -103,7 +100,7 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id+"/"+hash, byteArr, gocache.DefaultExpiration)
+		appCache.Set(cachekey, byteArr, gocache.DefaultExpiration)
 	}()
 	return byteArr, nil
 }
@@ -113,9 +110,10 @@ func MarshalCatalog(id string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	cachekey := fmt.Sprintf("catalog/%q", id)
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id + "/"); found {
+		if x, found := appCache.Get(cachekey); found {
 			ret := x.([]byte)
 			lock.RUnlock()
 			return ret, nil
@@ -132,15 +130,16 @@ func MarshalCatalog(id string) ([]byte, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id+"/", byteArr, gocache.DefaultExpiration)
+		appCache.Set(cachekey, byteArr, gocache.DefaultExpiration)
 	}()
 	return byteArr, nil
 }
 
 func hydratable(id string) (*hydratables.Hydratable, error) {
+	cachekey := fmt.Sprintf("hydratable/%q", id)
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id); found {
+		if x, found := appCache.Get(cachekey); found {
 			ret := x.(*hydratables.Hydratable)
 			lock.RUnlock()
 			return ret, nil
@@ -161,7 +160,7 @@ func hydratable(id string) (*hydratables.Hydratable, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id, ret, gocache.DefaultExpiration)
+		appCache.Set(cachekey, ret, gocache.DefaultExpiration)
 	}()
 	return ret, nil
 }
-- 
2.43.0


From 6c417945ce0d52be018c7a405b355045c1f78f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:26 +0000
Subject: [PATCH 03/45] fix: ignore cache entries of another kind

Global schemas, the unit type registry and renderings share one cache. A
filing that imports the registry's address as a schema made the schema
lookup panic on the entry left by the registry.
---
 pkg/cache/cache.go             | 28 ++++++++++++++++------------
 pkg/hydratables/global.go      | 14 ++++++++------
 pkg/hydratables/measurement.go |  7 ++++---
 3 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/pkg/cache/cache.go b/pkg/cache/cache.go
index e7de7da..7d3c438 100644
--- a/pkg/cache/cache.go
+++ b/pkg/cache/cache.go
@@ -38,9 +38,10 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 	lock.RLock()
 	if !dry {
 		if x, found := appCache.Get(cachekey); found {
-			ret := x.([]byte)
-			lock.RUnlock()
-			return ret, nil
+			if ret, ok := x.([]byte); ok {
+				lock.RUnlock()
+				return ret, nil
+			}
 		}
 	}
 	lock.RUnlock()
@@ -64,9 +65,10 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 	lock.RLock()
 	if !dry {
 		if x, found := appCache.Get(cachekey); found {
-			ret := x.([]byte)
-			lock.RUnlock()
-			return ret, nil
+			if ret, ok := x.([]byte); ok {
+				lock.RUnlock()
+				return ret, nil
+			}
 		}
 	}
 	lock.RUnlock()
@@ -114,9 +116,10 @@ func MarshalCatalog(id string) ([]byte, error) {
 	lock.RLock()
 	if !dry {
 		if x, found := appCache.Get(cachekey); found {
-			ret := x.([]byte)
-			lock.RUnlock()
-			return ret, nil
+			if ret, ok := x.([]byte); ok {
+				lock.RUnlock()
+				return ret, nil
+			}
 		}
 	}
 	lock.RUnlock()
@@ -140,9 +143,10 @@ func hydratable(id string) (*hydratables.Hydratable, error) {
 	lock.RLock()
 	if !dry {
 		if x, found := appCache.Get(cachekey); found {
-			ret := x.(*hydratables.Hydratable)
-			lock.RUnlock()
-			return ret, nil
+			if ret, ok := x.(*hydratables.Hydratable); ok {
+				lock.RUnlock()
+				return ret, nil
+			}
 		}
 	}
 	lock.RUnlock()
diff --git a/pkg/hydratables/global.go b/pkg/hydratables/global.go
index 3455052..4a5ebc7 100644
--- a/pkg/hydratables/global.go
+++ b/pkg/hydratables/global.go
@@ -24,9 +24,10 @@ func HydrateGlobalSchema(urlStr string) (*Schema, error) {
 	}
 	lock.RLock()
 	if x, found := globalCache.Get(urlStr); found {
-		ret := x.(Schema)
-		lock.RUnlock()
-		return &ret, nil
+		if ret, ok := x.(Schema); ok {
+			lock.RUnlock()
+			return &ret, nil
+		}
 	}
 	lock.RUnlock()
 	file, err := serializables.DiscoverGlobalSchema(urlStr)
@@ -56,9 +57,10 @@ func HydrateEntityNames() (map[string]map[string]string, error) {
 	}
 	lock.RLock()
 	if x, found := globalCache.Get(key); found {
-		ret := x.(map[string]map[string]string)
-		lock.RUnlock()
-		return ret, nil
+		if ret, ok := x.(map[string]map[string]string); ok {
+			lock.RUnlock()
+			return ret, nil
+		}
 	}
 	lock.RUnlock()
 	names, err := serializables.DiscoverEntityNames()
diff --git a/pkg/hydratables/measurement.go b/pkg/hydratables/measurement.go
index 29a2838..8d4e0e8 100644
--- a/pkg/hydratables/measurement.go
+++ b/pkg/hydratables/measurement.go
@@ -58,9 +58,10 @@ func HydrateUnitTypeRegistry() (*UnitTypeRegistry, error) {
 	}
 	lock.RLock()
 	if x, found := globalCache.Get(urlStr); found {
-		ret := x.(UnitTypeRegistry)
-		lock.RUnlock()
-		return &ret, nil
+		if ret, ok := x.(UnitTypeRegistry); ok {
+			lock.RUnlock()
+			return &ret, nil
+		}
 	}
 	lock.RUnlock()
 	file, err := serializables.DiscoverUnitTypeRegistry()
-- 
2.43.0


From b0648a58946614237d8c8681d2f4f9038c25b0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:49 +0000
Subject: [PATCH 04/45] fix: set the content type before sending the status
 line

Headers set after WriteHeader never reach the client, so JSON answers were
sent as text/plain. Inline source documents keep their detected type.
---
 internal/web/web.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/web/web.go b/internal/web/web.go
index 8271e47..88b6678 100644
--- a/internal/web/web.go
+++ b/internal/web/web.go
@@ -27,8 +27,8 @@ func Catalog() func(http.ResponseWriter, *http.Request) {
 			http.Error(w, "Error: "+err.Error(), http.StatusInternalServerError)
 			return
 		}
-		w.WriteHeader(http.StatusOK)
 		w.Header().Set("Content-Type", "application/json")
+		w.WriteHeader(http.StatusOK)
 		w.Write(data)
 	}
 }
@@ -56,8 +56,11 @@ func Renderable() func(http.ResponseWriter, *http.Request) {
 			http.Error(w, "Error: "+err.Error(), http.StatusInternalServerError)
 			return
 		}
+		ext := filepath.Ext(hash)
+		if ext != ".xhtml" && ext != ".htm" {
+			w.Header().Set("Content-Type", "application/json")
+		}
 		w.WriteHeader(http.StatusOK)
-		w.Header().Set("Content-Type", "application/json")
 		w.Write(data)
 	}
 }
@@ -94,8 +97,8 @@ func Expressable() func(http.ResponseWriter, *http.Request) {
 			http.Error(w, "Error: "+err.Error(), http.StatusInternalServerError)
 			return
 		}
-		w.WriteHeader(http.StatusOK)
 		w.Header().Set("Content-Type", "application/json")
+		w.WriteHeader(http.StatusOK)
 		w.Write(data)
 	}
 }
-- 
2.43.0


From 381ca38311a5309525aed40fd2dcb3719f894b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:57 +0000
Subject: [PATCH 05/45] fix: resolve names without a prefix instead of
 panicking

An inline fact whose name has no prefix sliced its name from -1 in a
goroutine and brought down the process.
---
 pkg/attr/name.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/attr/name.go b/pkg/attr/name.go
index e6c56b2..0f891b5 100644
--- a/pkg/attr/name.go
+++ b/pkg/attr/name.go
@@ -46,7 +46,7 @@ func (np *NameProvider) ProvideXmlName(prefixed string) (*xml.Name, error) {
 	if i < 0 {
 		return &xml.Name{
 			Space: "",
-			Local: prefixed[i:],
+			Local: prefixed,
 		}, nil
 	}
 	prefix := prefix(prefixed[:i])
-- 
2.43.0


From 894fbe13bdac32d354ac1dde7307661077453c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:04 +0000
Subject: [PATCH 06/45] fix: keep generating prefixes after the 26th

The 27th candidate suffix indexed the alphabet with -1 and panicked.
---
 pkg/attr/name.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/attr/name.go b/pkg/attr/name.go
index 0f891b5..483a1c5 100644
--- a/pkg/attr/name.go
+++ b/pkg/attr/name.go
@@ -149,5 +149,5 @@ func toChar(i int) string {
 	if i < len(arr) {
 		return arr[i]
 	}
-	return arr[len(arr)-1] + toChar(i-len(arr)-1)
+	return arr[len(arr)-1] + toChar(i-len(arr))
 }
-- 
2.43.0


From 31c38b4d42150723e5efe7bd87e4118219f5052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:11 +0000
Subject: [PATCH 07/45] fix: skip inline facts without a name or a context

The missing attribute was dereferenced in a goroutine, which brought down
the process.
---
 pkg/hydratables/document.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/hydratables/document.go b/pkg/hydratables/document.go
index a54e030..9d2ea81 100644
--- a/pkg/hydratables/document.go
+++ b/pkg/hydratables/document.go
@@ -37,6 +37,9 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 			}
 			name := attr.FindXpathAttr(nonNumeric.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonNumeric.Attr, "contextRef")
+			if name == nil || contextRef == nil {
+				return
+			}
 			xmlName, err := np.ProvideXmlName(name.Value)
 			if err != nil {
 				goErr = err
@@ -64,6 +67,9 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 			}
 			name := attr.FindXpathAttr(nonFraction.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonFraction.Attr, "contextRef")
+			if name == nil || contextRef == nil {
+				return
+			}
 			xmlName, err := np.ProvideXmlName(name.Value)
 			if err != nil {
 				goErr2 = err
-- 
2.43.0


From f4ccd709efb26048f0db1e8a50454c080389c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:18 +0000
Subject: [PATCH 08/45] fix: guard the collected error of inline fact workers

The error variable was read and written by all workers without the lock.
---
 pkg/hydratables/document.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pkg/hydratables/document.go b/pkg/hydratables/document.go
index 9d2ea81..96a73d6 100644
--- a/pkg/hydratables/document.go
+++ b/pkg/hydratables/document.go
@@ -32,23 +32,20 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 	for _, nnonNumeric := range source.NonNumerics {
 		go func(nonNumeric *xmlquery.Node) {
 			defer wg1.Done()
-			if goErr != nil {
-				return
-			}
 			name := attr.FindXpathAttr(nonNumeric.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonNumeric.Attr, "contextRef")
 			if name == nil || contextRef == nil {
 				return
 			}
 			xmlName, err := np.ProvideXmlName(name.Value)
+			lock1.Lock()
+			defer lock1.Unlock()
 			if err != nil {
 				goErr = err
 				return
 			}
-			lock1.Lock()
 			nret[name.Value] = *xmlName
 			cret[contextRef.Value] = true
-			lock1.Unlock()
 		}(nnonNumeric)
 	}
 	wg1.Wait()
@@ -62,23 +59,20 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 	for _, nnonFraction := range source.NonFractions {
 		go func(nonFraction *xmlquery.Node) {
 			defer wg2.Done()
-			if goErr2 != nil {
-				return
-			}
 			name := attr.FindXpathAttr(nonFraction.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonFraction.Attr, "contextRef")
 			if name == nil || contextRef == nil {
 				return
 			}
 			xmlName, err := np.ProvideXmlName(name.Value)
+			lock2.Lock()
+			defer lock2.Unlock()
 			if err != nil {
 				goErr2 = err
 				return
 			}
-			lock2.Lock()
 			nret[name.Value] = *xmlName
 			cret[contextRef.Value] = true
-			lock2.Unlock()
 		}(nnonFraction)
 	}
 	wg2.Wait()
-- 
2.43.0


From d4a475b766e9c7832e209727aed153f36e92d8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:39 +0000
Subject: [PATCH 09/45] fix: give every query of an inline document its own
 error

Eight workers shared two error variables without a lock, and six of them
tested the one they had not assigned.
---
 pkg/serializables/document.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pkg/serializables/document.go b/pkg/serializables/document.go
index e535dfb..57dfa06 100644
--- a/pkg/serializables/document.go
+++ b/pkg/serializables/document.go
@@ -33,10 +33,10 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 		return nil
 	}
 	var html *xmlquery.Node
-	var goErr error
 	htmlDone := make(chan bool)
 	go func() {
 		defer func() { htmlDone <- true }()
+		var goErr error
 		html, goErr = xmlquery.Query(doc, "//*[local-name()='html']")
 		if html == nil {
 			fmt.Println("Error: missing html")
@@ -50,6 +50,7 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	schemaRefsDone := make(chan bool)
 	go func() {
 		defer func() { schemaRefsDone <- true }()
+		var goErr error
 		schemaRefs, goErr = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='schemaRef' and namespace-uri()='"+attr.LINK+"']")
 		if goErr != nil {
 			schemaRefs = make([]*xmlquery.Node, 0)
@@ -60,7 +61,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	contextsDone := make(chan bool)
 	go func() {
 		defer func() { contextsDone <- true }()
-		contexts, err = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='context' and namespace-uri()='"+attr.XBRLI+"']")
+		var goErr error
+		contexts, goErr = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='context' and namespace-uri()='"+attr.XBRLI+"']")
 		if goErr != nil {
 			contexts = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -70,7 +72,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	unitsDone := make(chan bool)
 	go func() {
 		defer func() { unitsDone <- true }()
-		units, err = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='unit' and namespace-uri()='"+attr.XBRLI+"']")
+		var goErr error
+		units, goErr = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='unit' and namespace-uri()='"+attr.XBRLI+"']")
 		if goErr != nil {
 			units = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -80,7 +83,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	nonFractionsDone := make(chan bool)
 	go func() {
 		defer func() { nonFractionsDone <- true }()
-		nonFractions, err = xmlquery.QueryAll(doc, "//*[local-name()='nonFraction' and namespace-uri()='"+attr.IX+"']")
+		var goErr error
+		nonFractions, goErr = xmlquery.QueryAll(doc, "//*[local-name()='nonFraction' and namespace-uri()='"+attr.IX+"']")
 		if goErr != nil {
 			nonFractions = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -90,7 +94,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	nonNumericsDone := make(chan bool)
 	go func() {
 		defer func() { nonNumericsDone <- true }()
-		nonNumerics, err = xmlquery.QueryAll(doc, "//*[local-name()='nonNumeric' and namespace-uri()='"+attr.IX+"']")
+		var goErr error
+		nonNumerics, goErr = xmlquery.QueryAll(doc, "//*[local-name()='nonNumeric' and namespace-uri()='"+attr.IX+"']")
 		if goErr != nil {
 			nonNumerics = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -100,7 +105,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	excludesDone := make(chan bool)
 	go func() {
 		defer func() { excludesDone <- true }()
-		excludes, err = xmlquery.QueryAll(doc, "//*[local-name()='exclude' and namespace-uri()='"+attr.IX+"']")
+		var goErr error
+		excludes, goErr = xmlquery.QueryAll(doc, "//*[local-name()='exclude' and namespace-uri()='"+attr.IX+"']")
 		if goErr != nil {
 			excludes = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -110,7 +116,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	footnoteRelationshipsDone := make(chan bool)
 	go func() {
 		defer func() { footnoteRelationshipsDone <- true }()
-		footnoteRelationships, err = xmlquery.QueryAll(doc, "//*[local-name()='relationship' and namespace-uri()='"+attr.IX+"' and @arcrole='"+attr.FactFootnoteArcrole+"']")
+		var goErr error
+		footnoteRelationships, goErr = xmlquery.QueryAll(doc, "//*[local-name()='relationship' and namespace-uri()='"+attr.IX+"' and @arcrole='"+attr.FactFootnoteArcrole+"']")
 		if goErr != nil {
 			footnoteRelationships = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
-- 
2.43.0


From 444070bac6bbcb95fa0e495447cd3bcf8490e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:52 +0000
Subject: [PATCH 10/45] fix: test for an undecodable inline document before
 using it

A folder with an image and a malformed document crashed instead of
reporting the error.
---
 pkg/serializables/folder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index d788093..2387244 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -57,12 +57,12 @@ func Discover(id string) (*Folder, error) {
 			return nil, err
 		}
 		doc := DecodeIxbrlFile(data)
-		if len(ret.Images) > 0 {
-			doc.Bytes = TransformInlineImages(data, ret.Images)
-		}
 		if doc == nil {
 			return nil, fmt.Errorf("failed to decode IXBRL source document")
 		}
+		if len(ret.Images) > 0 {
+			doc.Bytes = TransformInlineImages(data, ret.Images)
+		}
 		ret.Document = doc
 		extracted := filepath.Join(workingDir, entryFileName+".xml")
 		if _, err := os.Stat(extracted); errors.Is(err, os.ErrNotExist) {
-- 
2.43.0


From 641acb9ac73652c0f4697eddfb0c18c362298523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:00 +0000
Subject: [PATCH 11/45] fix: report a missing or unreadable taxonomy file

The error was shadowed, so a missing file was returned as empty data
without an error.
---
 pkg/serializables/global.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/pkg/serializables/global.go b/pkg/serializables/global.go
index 0402818..8c3abb6 100644
--- a/pkg/serializables/global.go
+++ b/pkg/serializables/global.go
@@ -50,17 +50,7 @@ func DiscoverGlobalFile(urlStr string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	var ret []byte
-	if file, err := os.Stat(dest); err == nil {
-		dirString, _ := filepath.Split(dest)
-		filename := file.Name()
-		globalFilePath := filepath.Join(dirString, filename)
-		ret, err = os.ReadFile(globalFilePath)
-		if err == nil {
-			return ret, nil
-		}
-	}
-	return nil, err
+	return os.ReadFile(dest)
 }
 
 func DiscoverGlobalSchema(urlStr string) (*SchemaFile, error) {
-- 
2.43.0


From 3a68afe2d309255d11e40eefe31ce202eba86c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:08 +0000
Subject: [PATCH 12/45] fix: refuse references that lead outside of the data
 directories

Folder ids, entry file names, schema and linkbase references and taxonomy
addresses with parent directory elements were joined to the base directory
as they are and could open any file on the system.
---
 pkg/serializables/folder.go     | 37 ++++++++++++++++++++++++---------
 pkg/serializables/global.go     |  9 +++++++-
 pkg/serializables/underscore.go |  7 +++++--
 3 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index 2387244..0863cc6 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -34,7 +34,14 @@ func Discover(id string) (*Folder, error) {
 	if err != nil {
 		return nil, err
 	}
-	workingDir := filepath.Join(WorkingDirectoryPath, "folders", id)
+	workingDir, err := contain(filepath.Join(WorkingDirectoryPath, "folders"), id)
+	if err != nil {
+		return nil, err
+	}
+	entryFilePath, err := contain(workingDir, entryFileName)
+	if err != nil {
+		return nil, err
+	}
 	ret := &Folder{
 		EntryFileName:         entryFileName,
 		Dir:                   workingDir,
@@ -51,8 +58,7 @@ func Discover(id string) (*Folder, error) {
 	ext := filepath.Ext(entryFileName)
 	switch ext {
 	case ".xhtml", ".htm":
-		htmFilePath := filepath.Join(workingDir, entryFileName)
-		data, err := os.ReadFile(htmFilePath)
+		data, err := os.ReadFile(entryFilePath)
 		if err != nil {
 			return nil, err
 		}
@@ -64,7 +70,7 @@ func Discover(id string) (*Folder, error) {
 			doc.Bytes = TransformInlineImages(data, ret.Images)
 		}
 		ret.Document = doc
-		extracted := filepath.Join(workingDir, entryFileName+".xml")
+		extracted := entryFilePath + ".xml"
 		if _, err := os.Stat(extracted); errors.Is(err, os.ErrNotExist) {
 			return nil, fmt.Errorf("%s does not exists", extracted)
 		}
@@ -77,8 +83,7 @@ func Discover(id string) (*Folder, error) {
 		defer ret.wLock.Unlock()
 		ret.Instances[entryFileName+".xml"] = *instanceFile
 	case ".xbrl", ".xml":
-		xmlFilePath := filepath.Join(workingDir, entryFileName)
-		instanceFile, err := ReadInstanceFile(xmlFilePath)
+		instanceFile, err := ReadInstanceFile(entryFilePath)
 		if err != nil {
 			return nil, err
 		}
@@ -114,7 +119,10 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 				go DiscoverGlobalSchema(hrefAttr.Value)
 				return
 			}
-			schemaFilePath := filepath.Join(folder.Dir, hrefAttr.Value)
+			schemaFilePath, err := contain(folder.Dir, hrefAttr.Value)
+			if err != nil {
+				return
+			}
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
 				return
@@ -173,7 +181,10 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 				go DiscoverGlobalSchema(schemaLocationAttr.Value)
 				return
 			}
-			schemaFilePath := filepath.Join(folder.Dir, schemaLocationAttr.Value)
+			schemaFilePath, err := contain(folder.Dir, schemaLocationAttr.Value)
+			if err != nil {
+				return
+			}
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
 				return
@@ -239,7 +250,10 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 				go DiscoverGlobalSchema(schemaLocationAttr.Value)
 				return
 			}
-			schemaFilePath := filepath.Join(folder.Dir, schemaLocationAttr.Value)
+			schemaFilePath, err := contain(folder.Dir, schemaLocationAttr.Value)
+			if err != nil {
+				return
+			}
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
 				return
@@ -310,7 +324,10 @@ func (folder *Folder) linkbaseRefSchema(file *SchemaFile) {
 						go DiscoverGlobalFile(hrefAttr.Value)
 						return
 					}
-					linkbaseFilePath := filepath.Join(folder.Dir, hrefAttr.Value)
+					linkbaseFilePath, err := contain(folder.Dir, hrefAttr.Value)
+					if err != nil {
+						return
+					}
 					switch roleAttr.Value {
 					case attr.PresentationLinkbaseRef:
 						discoveredPre, err := ReadPresentationLinkbaseFile(linkbaseFilePath)
diff --git a/pkg/serializables/global.go b/pkg/serializables/global.go
index 8c3abb6..0333697 100644
--- a/pkg/serializables/global.go
+++ b/pkg/serializables/global.go
@@ -42,7 +42,14 @@ func UrlToFilename(urlStr string) (string, error) {
 	for _, split := range splits {
 		dest = filepath.Join(dest, split)
 	}
-	return filepath.Join(GlobalTaxonomySetPath, "concepts", dest), nil
+	return contain(filepath.Join(GlobalTaxonomySetPath, "concepts"), dest)
+}
+
+func contain(dir string, name string) (string, error) {
+	if !filepath.IsLocal(name) {
+		return "", fmt.Errorf("%s leads outside of %s", name, dir)
+	}
+	return filepath.Join(dir, name), nil
 }
 
 func DiscoverGlobalFile(urlStr string) ([]byte, error) {
diff --git a/pkg/serializables/underscore.go b/pkg/serializables/underscore.go
index 86e0d8c..2546af2 100644
--- a/pkg/serializables/underscore.go
+++ b/pkg/serializables/underscore.go
@@ -4,7 +4,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"os"
-	"path"
 	"path/filepath"
 
 	"github.com/google/uuid"
@@ -17,7 +16,11 @@ type Underscore struct {
 
 func GetEntryFileName(id string) (string, error) {
 	underscore := Underscore{}
-	b, err := os.ReadFile(path.Join(WorkingDirectoryPath, "folders", id, "_"))
+	workingDir, err := contain(filepath.Join(WorkingDirectoryPath, "folders"), id)
+	if err != nil {
+		return "", err
+	}
+	b, err := os.ReadFile(filepath.Join(workingDir, "_"))
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 52d1ed9b9c7b0ed30f3002229db2ade05c145ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:34 +0000
Subject: [PATCH 13/45] fix: discover schemas that refer to each other only
 once

Two schemas including or importing each other were read again and again by
an unbounded number of goroutines.
---
 pkg/serializables/folder.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index 0863cc6..9e899fc 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -16,6 +16,7 @@ import (
 
 type Folder struct {
 	wLock                 sync.Mutex
+	visited               map[string]bool
 	EntryFileName         string
 	Dir                   string
 	Document              *Document
@@ -45,6 +46,7 @@ func Discover(id string) (*Folder, error) {
 	ret := &Folder{
 		EntryFileName:         entryFileName,
 		Dir:                   workingDir,
+		visited:               make(map[string]bool),
 		Namespaces:            make(map[string]string),
 		Instances:             make(map[string]InstanceFile),
 		Schemas:               make(map[string]SchemaFile),
@@ -134,6 +136,9 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 			folder.wLock.Lock()
 			folder.Namespaces[targetNS.Value] = hrefAttr.Value
 			folder.wLock.Unlock()
+			if !folder.visit(hrefAttr.Value) {
+				return
+			}
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
@@ -157,6 +162,17 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 	wg.Wait()
 }
 
+// visit reports whether the schema is seen for the first time, schemas may refer to each other in a cycle
+func (folder *Folder) visit(href string) bool {
+	folder.wLock.Lock()
+	defer folder.wLock.Unlock()
+	if folder.visited[href] {
+		return false
+	}
+	folder.visited[href] = true
+	return true
+}
+
 func (folder *Folder) includeSchema(file *SchemaFile) {
 	if file == nil {
 		return
@@ -196,6 +212,9 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 			folder.wLock.Lock()
 			folder.Namespaces[targetNS.Value] = schemaLocationAttr.Value
 			folder.wLock.Unlock()
+			if !folder.visit(schemaLocationAttr.Value) {
+				return
+			}
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
@@ -258,6 +277,9 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 			if err != nil {
 				return
 			}
+			if !folder.visit(schemaLocationAttr.Value) {
+				return
+			}
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
-- 
2.43.0


From 959dd3311636a5e9969215d830311e94fd5544b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:52 +0000
Subject: [PATCH 14/45] fix: choose the location of a namespace
 deterministically

When a namespace is imported from several locations the one written last
by the concurrent discovery won, so concepts resolved differently from run
to run.
---
 pkg/serializables/folder.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index 9e899fc..6f36b39 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -133,9 +133,7 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 			if targetNS == nil || targetNS.Value == "" {
 				return
 			}
-			folder.wLock.Lock()
-			folder.Namespaces[targetNS.Value] = hrefAttr.Value
-			folder.wLock.Unlock()
+			folder.scope(targetNS.Value, hrefAttr.Value)
 			if !folder.visit(hrefAttr.Value) {
 				return
 			}
@@ -162,6 +160,15 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 	wg.Wait()
 }
 
+// scope keeps one location per namespace, regardless of which of several is discovered first
+func (folder *Folder) scope(namespace string, schemaLoc string) {
+	folder.wLock.Lock()
+	defer folder.wLock.Unlock()
+	if prev, found := folder.Namespaces[namespace]; !found || schemaLoc < prev {
+		folder.Namespaces[namespace] = schemaLoc
+	}
+}
+
 // visit reports whether the schema is seen for the first time, schemas may refer to each other in a cycle
 func (folder *Folder) visit(href string) bool {
 	folder.wLock.Lock()
@@ -209,9 +216,7 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 			if targetNS == nil || targetNS.Value == "" {
 				return
 			}
-			folder.wLock.Lock()
-			folder.Namespaces[targetNS.Value] = schemaLocationAttr.Value
-			folder.wLock.Unlock()
+			folder.scope(targetNS.Value, schemaLocationAttr.Value)
 			if !folder.visit(schemaLocationAttr.Value) {
 				return
 			}
@@ -262,9 +267,7 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 			if schemaLocationAttr == nil || schemaLocationAttr.Value == "" {
 				return
 			}
-			folder.wLock.Lock()
-			folder.Namespaces[namespaceAttr.Value] = schemaLocationAttr.Value
-			folder.wLock.Unlock()
+			folder.scope(namespaceAttr.Value, schemaLocationAttr.Value)
 			if attr.IsValidUrl(schemaLocationAttr.Value) {
 				go DiscoverGlobalSchema(schemaLocationAttr.Value)
 				return
-- 
2.43.0


From de3627d1036b30b1ebd003af6cef1789b8d94ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:40 +0000
Subject: [PATCH 15/45] fix: skip contexts without an entity

A context without an entity element crashed the hydration.
---
 pkg/hydratables/instance.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index b54f7f8..b65402b 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -134,6 +134,9 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 		}
 		item.ID = idAttr.Value
 		newEntity := Entity{}
+		if len(context.Entity) <= 0 {
+			continue
+		}
 		entity := context.Entity[0]
 		if len(entity.Identifier) <= 0 {
 			continue
-- 
2.43.0


From 520004dbf404605adf551686e76eae7f9778b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:49 +0000
Subject: [PATCH 16/45] fix: stop reading a malformed typed member

The loop ended only at the end of the input and span forever on a syntax
error.
---
 pkg/hydratables/instance.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index b65402b..ebabe04 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -351,6 +351,9 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return nil, nil
+		}
 		switch token.(type) {
 		case xml.StartElement:
 			startElem, ok := token.(xml.StartElement)
-- 
2.43.0


From a8d1e8711fbacdfeebb08945e4f710ad58f8ee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:57 +0000
Subject: [PATCH 17/45] fix: ignore typed members of undeclared elements

An element that its schema does not declare resolves to no concept, which
was dereferenced at its text or its end tag.
---
 pkg/hydratables/instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index ebabe04..ea9696e 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -363,7 +363,7 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 					continue
 				}
 				currHref, curr, err := h.NameQuery(startElemName.Space, startElemName.Local)
-				if err != nil {
+				if err != nil || curr == nil {
 					return nil, nil
 				}
 				order++
-- 
2.43.0


From 59bdfff72a9708c0f0f049ad3dd868d1718573a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:06 +0000
Subject: [PATCH 18/45] fix: attach sibling elements of a typed member to their
 parent

After an end tag the next element was recorded as a child of its preceding
sibling.
---
 pkg/hydratables/instance.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index ea9696e..f52386d 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -390,8 +390,13 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 				prev, ok = stack.Pop()
 				if ok {
 					stack.Push(prev)
+					prevHref, _, err = h.NameQuery(prev.XMLName.Space, prev.XMLName.Local)
+					if err != nil {
+						return nil, nil
+					}
 				} else {
 					prev = dimension
+					prevHref = dimensionHref
 				}
 			}
 		case xml.CharData:
-- 
2.43.0


From 660e773bfa6778a84036a1da7e3cadaeaffad636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:14 +0000
Subject: [PATCH 19/45] fix: look up the denominator of a unit by its own name

The local part of the numerator was used, so a ratio such as USD per share
showed the wrong denominator.
---
 pkg/hydratables/measurement.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hydratables/measurement.go b/pkg/hydratables/measurement.go
index 8d4e0e8..ae610a6 100644
--- a/pkg/hydratables/measurement.go
+++ b/pkg/hydratables/measurement.go
@@ -172,7 +172,7 @@ func (h *Hydratable) FindMeasurement(unitRef string) (*Measurement, *Measurement
 					return queryUTR(unit.Divide.UnitNumerator.Measure.XMLName.Space,
 							unit.Divide.UnitNumerator.Measure.XMLName.Local),
 						queryUTR(unit.Divide.UnitDenominator.Measure.XMLName.Space,
-							unit.Divide.UnitNumerator.Measure.XMLName.Local)
+							unit.Divide.UnitDenominator.Measure.XMLName.Local)
 				}
 				return queryUTR(unit.Measure.XMLName.Space, unit.Measure.XMLName.Local), nil
 			}
-- 
2.43.0


From bc248ba21fe3003d12d14fb76332eb4070ecc803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:22 +0000
Subject: [PATCH 20/45] fix: use the closed and usable flags as stated

Legible flags were replaced by the default and illegible ones kept. A member
is usable unless stated otherwise.
---
 pkg/hydratables/definitionLinkbase.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/hydratables/definitionLinkbase.go b/pkg/hydratables/definitionLinkbase.go
index ac40a31..27b1b76 100644
--- a/pkg/hydratables/definitionLinkbase.go
+++ b/pkg/hydratables/definitionLinkbase.go
@@ -138,15 +138,16 @@ func hydrateDefinitionLink(linkbaseFile *serializables.DefinitionLinkbaseFile) [
 			closedAttr := attr.FindAttr(arc.XMLAttrs, "closed")
 			if closedAttr != nil {
 				closed, err := strconv.ParseBool(closedAttr.Value)
-				if err == nil {
+				if err != nil {
 					closed = false
 				}
 				newArc.Closed = closed
 			}
+			newArc.Usable = true
 			usableAttr := attr.FindAttr(arc.XMLAttrs, "usable")
 			if usableAttr != nil {
 				usable, err := strconv.ParseBool(usableAttr.Value)
-				if err == nil {
+				if err != nil {
 					usable = true
 				}
 				newArc.Usable = usable
-- 
2.43.0


From 157139504d67ee2530a1dbb931a57a999bb5305c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:29 +0000
Subject: [PATCH 21/45] fix: keep the default order of a label arc with an
 illegible order

---
 pkg/hydratables/labelLinkbase.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/hydratables/labelLinkbase.go b/pkg/hydratables/labelLinkbase.go
index d2212d6..7a4ab66 100644
--- a/pkg/hydratables/labelLinkbase.go
+++ b/pkg/hydratables/labelLinkbase.go
@@ -117,7 +117,10 @@ func hydrateLabelLink(linkbaseFile *serializables.LabelLinkbaseFile) []LabelLink
 			order := float64(len(link.LabelArc) + i)
 			orderAttr := attr.FindAttr(arc.XMLAttrs, "order")
 			if orderAttr != nil && orderAttr.Value != "" {
-				order, _ = strconv.ParseFloat(orderAttr.Value, 64)
+				parsed, err := strconv.ParseFloat(orderAttr.Value, 64)
+				if err == nil {
+					order = parsed
+				}
 			}
 			arcroleAttr := attr.FindAttr(arc.XMLAttrs, "arcrole")
 			if arcroleAttr == nil || arcroleAttr.Name.Space != attr.XLINK || arcroleAttr.Value == "" {
-- 
2.43.0


From 35f700f717f162bcb26cd83ea2f2f83cf26fecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:46 +0000
Subject: [PATCH 22/45] fix: show only dimension-default arcs as default

Every dimension-domain arc was reported as the default of its dimension.
---
 pkg/renderables/dimensionRelationshipSet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderables/dimensionRelationshipSet.go b/pkg/renderables/dimensionRelationshipSet.go
index 2b0883c..d03b53f 100644
--- a/pkg/renderables/dimensionRelationshipSet.go
+++ b/pkg/renderables/dimensionRelationshipSet.go
@@ -103,7 +103,7 @@ func getDRS(schemedEntity string, linkroleURI string, h *hydratables.Hydratable)
 					case attr.DimensionDomainArcrole:
 						dd = &DimensionDomainConnection{
 							Order:    order,
-							Default:  true,
+							Default:  false,
 							Usable:   arc.Usable,
 							External: arc.TargetRole,
 						}
-- 
2.43.0


From 3ee02a455df3ab3b558c53343ebb4fccd4706dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:53 +0000
Subject: [PATCH 23/45] fix: pass over facts of undeclared contexts

A fact whose context is not declared crashed the rendering.
---
 pkg/renderables/contexts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/renderables/contexts.go b/pkg/renderables/contexts.go
index f1e311c..ae33e94 100644
--- a/pkg/renderables/contexts.go
+++ b/pkg/renderables/contexts.go
@@ -214,6 +214,9 @@ func getRelevantContexts(schemedEntity string, h *hydratables.Hydratable,
 				}
 				if factualEdgeHref == fact.Href {
 					context := getContext(&instance, fact.ContextRef)
+					if context == nil {
+						continue
+					}
 					entity := context.Entity
 					contextualSchemedEntity := entity.Identifier.Scheme + "/" + entity.Identifier.CharData
 					if contextualSchemedEntity == schemedEntity {
-- 
2.43.0


From ae4d160c4dd866da5a8be486b694d368c9edca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:02 +0000
Subject: [PATCH 24/45] fix: report expressables that cannot be found

An unknown name or context was answered with an empty body. A filing without
an inline document, or a context outside an arbitrary one of its instances,
crashed the request.
---
 pkg/renderables/contexts.go    |  9 +++++++++
 pkg/renderables/expressable.go | 20 +++++++++++---------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/pkg/renderables/contexts.go b/pkg/renderables/contexts.go
index ae33e94..140fe96 100644
--- a/pkg/renderables/contexts.go
+++ b/pkg/renderables/contexts.go
@@ -17,6 +17,15 @@ func getContext(instance *hydratables.Instance, contextRef string) *hydratables.
 	return nil
 }
 
+func findContext(h *hydratables.Hydratable, contextRef string) *hydratables.Context {
+	for _, instance := range h.Instances {
+		if context := getContext(&instance, contextRef); context != nil {
+			return context
+		}
+	}
+	return nil
+}
+
 type relevantContext struct {
 	ContextRef   string
 	PeriodHeader LanguagePack
diff --git a/pkg/renderables/expressable.go b/pkg/renderables/expressable.go
index 36df4e0..0b3377d 100644
--- a/pkg/renderables/expressable.go
+++ b/pkg/renderables/expressable.go
@@ -2,6 +2,7 @@ package renderables
 
 import (
 	"encoding/json"
+	"fmt"
 
 	"ecksbee.com/telefacts/pkg/hydratables"
 )
@@ -19,18 +20,16 @@ type Expressable struct {
 }
 
 func MarshalExpressable(name string, contextref string, h *hydratables.Hydratable) ([]byte, error) {
+	if h.Document == nil {
+		return nil, fmt.Errorf("object not found")
+	}
 	xmlname, found := h.Document.NamespaceMap[name]
 	if !found {
-		return nil, nil
+		return nil, fmt.Errorf("object not found")
 	}
 	_, found = h.Document.ContextRefMap[contextref]
 	if !found {
-		return nil, nil
-	}
-	var extracted *hydratables.Instance
-	for _, instance := range h.Instances {
-		extracted = &instance
-		break
+		return nil, fmt.Errorf("object not found")
 	}
 	href, _, err := h.NameQuery(xmlname.Space, xmlname.Local)
 	if err != nil {
@@ -39,9 +38,12 @@ func MarshalExpressable(name string, contextref string, h *hydratables.Hydratabl
 	labels := GetLabel(h, href)
 	hydratedFact := h.FindFact(href, contextref)
 	if hydratedFact == nil {
-		return nil, nil
+		return nil, fmt.Errorf("object not found")
+	}
+	context := findContext(h, contextref)
+	if context == nil {
+		return nil, fmt.Errorf("object not found")
 	}
-	context := getContext(extracted, contextref)
 	period := periodMultilingualString(labels, context)
 	entity := stringify(&Entity{
 		Scheme:   context.Entity.Identifier.Scheme,
-- 
2.43.0


From 0c4cd5196e7074029eb77dd5a2266cea9446c3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:23 +0000
Subject: [PATCH 25/45] fix: collect the grids of a renderable without racing

The three workers appended to the same slices and wrote the same error
unsynchronised, so languages and label roles could get lost and came in
whichever order the workers finished. Their error was shadowed, and a failed
name lookup failed the whole request although a fallback name was in place.
---
 pkg/renderables/renderable.go | 49 ++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/pkg/renderables/renderable.go b/pkg/renderables/renderable.go
index 67fcd8e..433a368 100644
--- a/pkg/renderables/renderable.go
+++ b/pkg/renderables/renderable.go
@@ -45,9 +45,17 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 					p          PGrid
 					d          DGrid
 					c          CGrid
+					pRoles     []LabelRole
+					dRoles     []LabelRole
+					cRoles     []LabelRole
+					pLangs     []Lang
+					dLangs     []Lang
+					cLangs     []Lang
+					pErr       error
+					dErr       error
+					cErr       error
 					labelRoles []LabelRole
 					langs      []Lang
-					err        error
 					wg         sync.WaitGroup
 				)
 				wg.Add(3)
@@ -55,38 +63,28 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 				langs = make([]Lang, 0, 8)
 				go func(entity string, linkrole string) {
 					defer wg.Done()
-					localP, lr, ln, localError := pGrid(entity, linkrole, h, h, h, h)
-					if localError != nil {
-						err = localError
-						return
-					}
-					p = localP
-					labelRoles = append(labelRoles, lr...)
-					langs = append(langs, ln...)
+					p, pRoles, pLangs, pErr = pGrid(entity, linkrole, h, h, h, h)
 				}(eentity, llinkrole)
 				go func(entity string, linkrole string) {
 					defer wg.Done()
-					localD, lr, ln, localError := dGrid(entity, linkrole, h, h, h, h)
-					if localError != nil {
-						err = localError
-						return
-					}
-					d = localD
-					labelRoles = append(labelRoles, lr...)
-					langs = append(langs, ln...)
+					d, dRoles, dLangs, dErr = dGrid(entity, linkrole, h, h, h, h)
 				}(eentity, llinkrole)
 				go func(entity string, linkrole string) {
 					defer wg.Done()
-					localC, lr, ln, localError := cGrid(entity, linkrole, h, h, h, h)
-					if localError != nil {
-						err = localError
-						return
+					c, cRoles, cLangs, cErr = cGrid(entity, linkrole, h, h, h, h)
+				}(eentity, llinkrole)
+				wg.Wait()
+				for _, err := range []error{pErr, dErr, cErr} {
+					if err != nil {
+						return nil, err
 					}
-					c = localC
+				}
+				for _, lr := range [][]LabelRole{pRoles, dRoles, cRoles} {
 					labelRoles = append(labelRoles, lr...)
+				}
+				for _, ln := range [][]Lang{pLangs, dLangs, cLangs} {
 					langs = append(langs, ln...)
-				}(eentity, llinkrole)
-				wg.Wait()
+				}
 				langs = dedupLang(langs)
 				labelRoles = dedupLabelRole(labelRoles)
 				p, d, c = formatPeriod(p, d, c, langs)
@@ -117,9 +115,6 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 					Lang:       langs,
 					LabelRoles: labelRoles,
 				}
-				if err != nil {
-					return nil, err
-				}
 				return json.Marshal(ret)
 			}
 		}
-- 
2.43.0


From f9e35de7d3fabeb0b9eca3177e9889c23402655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:06 +0000
Subject: [PATCH 26/45] fix: visit linkbases and instances in a fixed order

Maps were ranged over, so the order of rows and columns, and which of several
matching facts, contexts, units, footnotes or labels was shown, changed from
request to request.
---
 internal/order/order.go                     | 22 +++++++++++++++++++++
 pkg/hydratables/fact.go                     |  7 ++++---
 pkg/hydratables/measurement.go              |  3 ++-
 pkg/renderables/calculationGrid.go          |  6 ++++--
 pkg/renderables/contexts.go                 |  7 ++++---
 pkg/renderables/dimensionRelationshipSet.go |  3 ++-
 pkg/renderables/effectiveDomainGrid.go      |  5 +++--
 pkg/renderables/label.go                    |  3 ++-
 pkg/renderables/presentationGrid.go         |  3 ++-
 pkg/renderables/relationshipSet.go          |  3 ++-
 10 files changed, 47 insertions(+), 15 deletions(-)
 create mode 100644 internal/order/order.go

diff --git a/internal/order/order.go b/internal/order/order.go
new file mode 100644
index 0000000..e90ec22
--- /dev/null
+++ b/internal/order/order.go
@@ -0,0 +1,22 @@
+package order
+
+import "sort"
+
+// Keys lists the keys of a map in ascending order.
+func Keys[K ~string, V any](m map[K]V) []K {
+	ret := make([]K, 0, len(m))
+	for key := range m {
+		ret = append(ret, key)
+	}
+	sort.Slice(ret, func(i, j int) bool { return ret[i] < ret[j] })
+	return ret
+}
+
+// Values lists the values of a map in ascending order of their keys.
+func Values[K ~string, V any](m map[K]V) []V {
+	ret := make([]V, 0, len(m))
+	for _, key := range Keys(m) {
+		ret = append(ret, m[key])
+	}
+	return ret
+}
diff --git a/pkg/hydratables/fact.go b/pkg/hydratables/fact.go
index 1ba33fc..f33dd3a 100644
--- a/pkg/hydratables/fact.go
+++ b/pkg/hydratables/fact.go
@@ -4,6 +4,7 @@ import (
 	"strings"
 
 	"ecksbee.com/telefacts/internal/graph"
+	"ecksbee.com/telefacts/internal/order"
 	"ecksbee.com/telefacts/pkg/attr"
 	myarcs "github.com/joshuanario/arcs"
 )
@@ -19,7 +20,7 @@ type Fact struct {
 }
 
 func (h *Hydratable) FindFact(href string, contextRef string) *Fact {
-	for _, ins := range h.Instances {
+	for _, ins := range order.Values(h.Instances) {
 		for _, fact := range ins.Facts {
 			if fact.Href == href && fact.ContextRef == contextRef {
 				return &fact
@@ -46,7 +47,7 @@ func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
 	if fact == nil {
 		return make([]*Footnote, 0)
 	}
-	for _, instance := range h.Instances {
+	for _, instance := range order.Values(h.Instances) {
 		for _, footnoteLink := range instance.FootnoteLinks {
 			arcs := footnoteLink.FootnoteArcs
 			fnoteArcs := fnoteArcs(arcs)
@@ -105,7 +106,7 @@ func mapFnoteLocatorToHref(instance *Instance, locator string) string {
 }
 
 func (h *Hydratable) FindFootnote(id string) *Footnote {
-	for _, ins := range h.Instances {
+	for _, ins := range order.Values(h.Instances) {
 		for _, footnoteLink := range ins.FootnoteLinks {
 			for _, footnote := range footnoteLink.Footnotes {
 				if footnote.ID == id {
diff --git a/pkg/hydratables/measurement.go b/pkg/hydratables/measurement.go
index ae610a6..a955de1 100644
--- a/pkg/hydratables/measurement.go
+++ b/pkg/hydratables/measurement.go
@@ -4,6 +4,7 @@ import (
 	"encoding/xml"
 	"fmt"
 
+	"ecksbee.com/telefacts/internal/order"
 	"ecksbee.com/telefacts/pkg/attr"
 	"ecksbee.com/telefacts/pkg/serializables"
 	gocache "github.com/patrickmn/go-cache"
@@ -161,7 +162,7 @@ func queryUTR(namespace string, id string) *Measurement {
 }
 
 func (h *Hydratable) FindMeasurement(unitRef string) (*Measurement, *Measurement) {
-	for _, ins := range h.Instances {
+	for _, ins := range order.Values(h.Instances) {
 		for _, unit := range ins.Units {
 			if unit.ID == unitRef {
 				if unit.Measure.CharData == "" {
diff --git a/pkg/renderables/calculationGrid.go b/pkg/renderables/calculationGrid.go
index 484648f..2e00361 100644
--- a/pkg/renderables/calculationGrid.go
+++ b/pkg/renderables/calculationGrid.go
@@ -5,6 +5,7 @@ import (
 	"math"
 	"sort"
 
+	"ecksbee.com/telefacts/internal/order"
 	"ecksbee.com/telefacts/pkg/attr"
 	"ecksbee.com/telefacts/pkg/hydratables"
 )
@@ -47,7 +48,7 @@ func cGrid(schemedEntity string, linkroleURI string, h *hydratables.Hydratable,
 func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.Hydratable,
 	factFinder FactFinder, conceptFinder ConceptFinder, measurementFinder MeasurementFinder) ([]SummationItem, []LabelRole, []Lang) {
 	var calculationLinks []hydratables.CalculationLink
-	for _, calculation := range h.CalculationLinkbases {
+	for _, calculation := range order.Values(h.CalculationLinkbases) {
 		for _, roleRef := range calculation.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
 				calculationLinks = calculation.CalculationLinks
@@ -94,7 +95,8 @@ func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.
 					langs      []Lang
 				)
 				ret := make([]SummationItem, 0, len(cMap))
-				for from, slice := range cMap {
+				for _, from := range order.Keys(cMap) {
+					slice := cMap[from]
 					contributingConcepts := make([]ContributingConcept, 0, len(slice))
 					fqLabels := make([]string, 0, len(slice)+1)
 					for _, cstruct := range slice {
diff --git a/pkg/renderables/contexts.go b/pkg/renderables/contexts.go
index 140fe96..7259eee 100644
--- a/pkg/renderables/contexts.go
+++ b/pkg/renderables/contexts.go
@@ -4,6 +4,7 @@ import (
 	"sort"
 
 	"ecksbee.com/telefacts/internal/graph"
+	"ecksbee.com/telefacts/internal/order"
 	"ecksbee.com/telefacts/pkg/hydratables"
 	myarcs "github.com/joshuanario/arcs"
 )
@@ -18,7 +19,7 @@ func getContext(instance *hydratables.Instance, contextRef string) *hydratables.
 }
 
 func findContext(h *hydratables.Hydratable, contextRef string) *hydratables.Context {
-	for _, instance := range h.Instances {
+	for _, instance := range order.Values(h.Instances) {
 		if context := getContext(&instance, contextRef); context != nil {
 			return context
 		}
@@ -152,7 +153,7 @@ func appendLanguagePackFromPeriod(langPack LanguagePack, labels LabelPack, start
 
 func dedupEntities(h *hydratables.Hydratable) []Entity {
 	entities := []Entity{}
-	for _, instance := range h.Instances {
+	for _, instance := range order.Values(h.Instances) {
 		for _, context := range instance.Contexts {
 			entity := context.Entity
 			scheme := entity.Identifier.Scheme
@@ -214,7 +215,7 @@ func getRelevantContexts(schemedEntity string, h *hydratables.Hydratable,
 	scenarioTypedDomainTrees := make([]myarcs.RArc, 0)
 	ret := make([]relevantContext, 0, len(hrefs)*4)
 	labelPacks := make([]LabelPack, 0, len(hrefs)*4)
-	for _, instance := range h.Instances {
+	for _, instance := range order.Values(h.Instances) {
 		contextRefTaken := make(map[string]bool)
 		for _, factualEdgeHref := range factuaHrefs {
 			for _, fact := range instance.Facts {
diff --git a/pkg/renderables/dimensionRelationshipSet.go b/pkg/renderables/dimensionRelationshipSet.go
index d03b53f..33ef581 100644
--- a/pkg/renderables/dimensionRelationshipSet.go
+++ b/pkg/renderables/dimensionRelationshipSet.go
@@ -4,6 +4,7 @@ import (
 	"sort"
 	"strconv"
 
+	"ecksbee.com/telefacts/internal/order"
 	"ecksbee.com/telefacts/pkg/attr"
 	"ecksbee.com/telefacts/pkg/hydratables"
 )
@@ -53,7 +54,7 @@ func getDRS(schemedEntity string, linkroleURI string, h *hydratables.Hydratable)
 	links := make([]DRSLink, 0, 20)
 	hrefs := make(map[string]int)
 
-	for _, definition := range h.DefinitionLinkbases {
+	for _, definition := range order.Values(h.DefinitionLinkbases) {
 		var definitionLinks []hydratables.DefinitionLink
 		for _, roleRef := range definition.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index e363f7b..1b4bc7e 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -4,6 +4,7 @@ import (
 	"sort"
 
 	"ecksbee.com/telefacts/internal/graph"
+	"ecksbee.com/telefacts/internal/order"
 	"ecksbee.com/telefacts/pkg/attr"
 	"ecksbee.com/telefacts/pkg/hydratables"
 	myarcs "github.com/joshuanario/arcs"
@@ -63,7 +64,7 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 	labelRoles := []LabelRole{}
 	langs := []Lang{}
 	labelPacks := make([]LabelPack, 0, 100)
-	for _, definition := range h.DefinitionLinkbases {
+	for _, definition := range order.Values(h.DefinitionLinkbases) {
 		var definitionLinks []hydratables.DefinitionLink
 		for _, roleRef := range definition.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
@@ -162,7 +163,7 @@ func getEffectiveDimensions(linkroleURI string,
 	effectiveDimensionMap := make(map[string]bool)
 	effectiveDimensions := make([]EffectiveDimension, 0, len(arcs))
 	effectiveDimensionHrefs := make([]string, 0, len(arcs))
-	for _, definition := range h.DefinitionLinkbases {
+	for _, definition := range order.Values(h.DefinitionLinkbases) {
 		for _, arc := range arcs {
 			if arc.Arcrole == attr.HypercubeDimensionArcrole {
 				dim := mapDLocatorToHref(linkroleURI, &definition, arc.To)
diff --git a/pkg/renderables/label.go b/pkg/renderables/label.go
index 804ac2b..c0d28f7 100644
--- a/pkg/renderables/label.go
+++ b/pkg/renderables/label.go
@@ -3,6 +3,7 @@ package renderables
 import (
 	"strings"
 
+	"ecksbee.com/telefacts/internal/order"
 	"ecksbee.com/telefacts/pkg/attr"
 	"ecksbee.com/telefacts/pkg/hydratables"
 )
@@ -21,7 +22,7 @@ func GetLabel(h *hydratables.Hydratable, href string) LabelPack {
 
 func appendLabelModifiersFromHref(labelPack LabelPack, h *hydratables.Hydratable, href string) LabelPack {
 	ret := labelPack
-	for _, labels := range h.LabelLinkbases {
+	for _, labels := range order.Values(h.LabelLinkbases) {
 		for _, labelLink := range labels.LabelLink {
 			for _, loc := range labelLink.Locs {
 				if loc.Href == href {
diff --git a/pkg/renderables/presentationGrid.go b/pkg/renderables/presentationGrid.go
index 6cc34a8..6f113ee 100644
--- a/pkg/renderables/presentationGrid.go
+++ b/pkg/renderables/presentationGrid.go
@@ -4,6 +4,7 @@ import (
 	"sort"
 
 	"ecksbee.com/telefacts/internal/graph"
+	"ecksbee.com/telefacts/internal/order"
 	"ecksbee.com/telefacts/pkg/attr"
 	"ecksbee.com/telefacts/pkg/hydratables"
 	myarcs "github.com/joshuanario/arcs"
@@ -70,7 +71,7 @@ func pArcs(pArcs []hydratables.PresentationArc) []myarcs.Arc {
 
 func getIndentedLabels(linkroleURI string, h *hydratables.Hydratable) ([]IndentedLabel, []LabelPack) {
 	labelPacks := make([]LabelPack, 0, 100)
-	for _, presentation := range h.PresentationLinkbases {
+	for _, presentation := range order.Values(h.PresentationLinkbases) {
 		var presentationLinks []hydratables.PresentationLink
 		for _, roleRef := range presentation.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
diff --git a/pkg/renderables/relationshipSet.go b/pkg/renderables/relationshipSet.go
index 3ffe4fa..aac9cd8 100644
--- a/pkg/renderables/relationshipSet.go
+++ b/pkg/renderables/relationshipSet.go
@@ -3,6 +3,7 @@ package renderables
 import (
 	"sort"
 
+	"ecksbee.com/telefacts/internal/order"
 	"ecksbee.com/telefacts/pkg/hydratables"
 )
 
@@ -19,7 +20,7 @@ func sortedRelationshipSets(h *hydratables.Hydratable) []RelationshipSet {
 
 func dedupRelationshipSets(h *hydratables.Hydratable) []RelationshipSet {
 	rsets := []RelationshipSet{}
-	for _, schema := range h.Schemas {
+	for _, schema := range order.Values(h.Schemas) {
 		if len(schema.Annotation.Appinfo.RoleTypes) <= 0 {
 			continue
 		}
-- 
2.43.0


From 600963198b9ff98aed3206487639c9ea802e7b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:42 +0000
Subject: [PATCH 27/45] fix: number the footnotes of a grid consistently

The numbers in the cells and the list of footnotes came from separate ranges
over a map, so a number could point to another footnote.
---
 pkg/renderables/factualQuadrant.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/renderables/factualQuadrant.go b/pkg/renderables/factualQuadrant.go
index b6b1922..07c4748 100644
--- a/pkg/renderables/factualQuadrant.go
+++ b/pkg/renderables/factualQuadrant.go
@@ -26,6 +26,7 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 	ret := make([][]*MultilingualFact, rowCount)
 	footnoteGrid := make([][][]*hydratables.Footnote, rowCount)
 	idMap := make(map[string]*hydratables.Footnote)
+	ids := make([]string, 0)
 	for i := 0; i < rowCount; i++ {
 		row := make([]*MultilingualFact, colCount)
 		footnoteRow := make([][]*hydratables.Footnote, colCount)
@@ -39,6 +40,7 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			for _, footnote := range footnotes {
 				if _, found := idMap[footnote.ID]; !found {
 					idMap[footnote.ID] = footnote
+					ids = append(ids, footnote.ID)
 				}
 			}
 			row[j] = render(fact, conceptFinder, measurementFinder, langs)
@@ -55,7 +57,7 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			footnotes := footnoteGrid[i][j]
 			k := 1
 			ints := make([]int, 0)
-			for id := range idMap {
+			for _, id := range ids {
 				for _, footnote := range footnotes {
 					if footnote.ID == id {
 						ints = append(ints, k)
@@ -67,8 +69,8 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			grid[i][j] = ints
 		}
 	}
-	for _, footnote := range idMap {
-		arr = append(arr, footnote.InnerHtml)
+	for _, id := range ids {
+		arr = append(arr, idMap[id].InnerHtml)
 	}
 	return ret, grid, arr
 }
-- 
2.43.0


From 5fd90927323cd48fc7d43bc36246cb63d180ba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:50 +0000
Subject: [PATCH 28/45] fix: keep the links of a linkbase in document order

---
 pkg/hydratables/calculationLinkbase.go  | 6 ++++--
 pkg/hydratables/definitionLinkbase.go   | 6 ++++--
 pkg/hydratables/presentationLinkbase.go | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/hydratables/calculationLinkbase.go b/pkg/hydratables/calculationLinkbase.go
index 540afed..20d5fb6 100644
--- a/pkg/hydratables/calculationLinkbase.go
+++ b/pkg/hydratables/calculationLinkbase.go
@@ -150,6 +150,7 @@ func hydrateCalculationLink(linkbaseFile *serializables.CalculationLinkbaseFile)
 
 func dedupCalculationLink(links []CalculationLink) []CalculationLink {
 	occured := map[string]CalculationLink{}
+	roles := make([]string, 0, len(links))
 	for _, link := range links {
 		if merged, found := occured[link.Role]; found {
 			merged.Locs = append(merged.Locs, link.Locs...)
@@ -157,11 +158,12 @@ func dedupCalculationLink(links []CalculationLink) []CalculationLink {
 			occured[link.Role] = merged
 		} else {
 			occured[link.Role] = link
+			roles = append(roles, link.Role)
 		}
 	}
 	ret := make([]CalculationLink, 0)
-	for _, r := range occured {
-		ret = append(ret, r)
+	for _, role := range roles {
+		ret = append(ret, occured[role])
 	}
 	return ret
 }
diff --git a/pkg/hydratables/definitionLinkbase.go b/pkg/hydratables/definitionLinkbase.go
index 27b1b76..22e16e0 100644
--- a/pkg/hydratables/definitionLinkbase.go
+++ b/pkg/hydratables/definitionLinkbase.go
@@ -169,6 +169,7 @@ func hydrateDefinitionLink(linkbaseFile *serializables.DefinitionLinkbaseFile) [
 
 func dedupDefinitionLink(links []DefinitionLink) []DefinitionLink {
 	occured := map[string]DefinitionLink{}
+	roles := make([]string, 0, len(links))
 	for _, link := range links {
 		if merged, found := occured[link.Role]; found {
 			merged.Locs = append(merged.Locs, link.Locs...)
@@ -176,11 +177,12 @@ func dedupDefinitionLink(links []DefinitionLink) []DefinitionLink {
 			occured[link.Role] = merged
 		} else {
 			occured[link.Role] = link
+			roles = append(roles, link.Role)
 		}
 	}
 	ret := make([]DefinitionLink, 0)
-	for _, r := range occured {
-		ret = append(ret, r)
+	for _, role := range roles {
+		ret = append(ret, occured[role])
 	}
 	return ret
 }
diff --git a/pkg/hydratables/presentationLinkbase.go b/pkg/hydratables/presentationLinkbase.go
index d9914b4..c933281 100644
--- a/pkg/hydratables/presentationLinkbase.go
+++ b/pkg/hydratables/presentationLinkbase.go
@@ -145,6 +145,7 @@ func hydratePresentationLink(linkbaseFile *serializables.PresentationLinkbaseFil
 
 func dedupPresentationLink(links []PresentationLink) []PresentationLink {
 	occured := map[string]PresentationLink{}
+	roles := make([]string, 0, len(links))
 	for _, link := range links {
 		if merged, found := occured[link.Role]; found {
 			merged.Locs = append(merged.Locs, link.Locs...)
@@ -152,11 +153,12 @@ func dedupPresentationLink(links []PresentationLink) []PresentationLink {
 			occured[link.Role] = merged
 		} else {
 			occured[link.Role] = link
+			roles = append(roles, link.Role)
 		}
 	}
 	ret := make([]PresentationLink, 0)
-	for _, r := range occured {
-		ret = append(ret, r)
+	for _, role := range roles {
+		ret = append(ret, occured[role])
 	}
 	return ret
 }
-- 
2.43.0


From 38ba30115e1fe6f187f8690d081152c9d7e962fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:58 +0000
Subject: [PATCH 29/45] fix: list label roles and languages in a fixed order

---
 pkg/renderables/labelPack.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/renderables/labelPack.go b/pkg/renderables/labelPack.go
index 06afe3b..f2bb5ce 100644
--- a/pkg/renderables/labelPack.go
+++ b/pkg/renderables/labelPack.go
@@ -1,5 +1,7 @@
 package renderables
 
+import "ecksbee.com/telefacts/internal/order"
+
 type LabelRole string
 type Lang string
 
@@ -50,11 +52,9 @@ func reduce(labelPacks []LabelPack) *LabelPack {
 func destruct(labelPack LabelPack) ([]LabelRole, []Lang) {
 	labelRoles := make([]LabelRole, 0, 20)
 	langs := make([]Lang, 0, 8)
-	for labelRole, langPack := range labelPack {
+	for _, labelRole := range order.Keys(labelPack) {
 		labelRoles = append(labelRoles, labelRole)
-		for lang := range langPack {
-			langs = append(langs, lang)
-		}
+		langs = append(langs, order.Keys(labelPack[labelRole])...)
 	}
 	return labelRoles, langs
 }
-- 
2.43.0


From fc39e9c82e81ba18c3cf91bfed49a97bb0e08cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:05 +0000
Subject: [PATCH 30/45] fix: keep the languages of every label

Reducing several labels kept only the languages of the last one of each role,
so a language could be missing from the whole renderable.
---
 pkg/renderables/labelPack.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/renderables/labelPack.go b/pkg/renderables/labelPack.go
index f2bb5ce..a69b2a3 100644
--- a/pkg/renderables/labelPack.go
+++ b/pkg/renderables/labelPack.go
@@ -40,7 +40,9 @@ func reduce(labelPacks []LabelPack) *LabelPack {
 	for i := 0; i < len(labelPacks); i++ {
 		item := labelPacks[i]
 		for labelRole, langPack := range item {
-			ret[labelRole] = make(LanguagePack)
+			if _, found := ret[labelRole]; !found {
+				ret[labelRole] = make(LanguagePack)
+			}
 			for lang, chardata := range langPack {
 				ret[labelRole][lang] = chardata
 			}
-- 
2.43.0


From f430799bc8f97e6e2795d51e461e7c1a6a57ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:12 +0000
Subject: [PATCH 31/45] fix: show labels in plain english

---
 pkg/renderables/label.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/renderables/label.go b/pkg/renderables/label.go
index c0d28f7..1ecedcc 100644
--- a/pkg/renderables/label.go
+++ b/pkg/renderables/label.go
@@ -66,8 +66,7 @@ func appendLabelModifiersFromHref(labelPack LabelPack, h *hydratables.Hydratable
 
 func appendLanguage(labelLinkLabel *hydratables.LabelLinkLabel, labelRole LabelRole, charData string, labelPack LabelPack) LabelPack {
 	switch labelLinkLabel.Lang {
-	case "en":
-	case "en-US":
+	case "en", "en-US":
 		labelPack[labelRole][English] = charData
 		break
 	case "es":
-- 
2.43.0


From 4005201968d2bd26c68b6cd24e08356451422345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:19 +0000
Subject: [PATCH 32/45] fix: choose the namespace of a schema deterministically

---
 pkg/hydratables/query.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/hydratables/query.go b/pkg/hydratables/query.go
index 4304545..0a2ccd4 100644
--- a/pkg/hydratables/query.go
+++ b/pkg/hydratables/query.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strings"
 
+	"ecksbee.com/telefacts/internal/order"
 	"ecksbee.com/telefacts/pkg/attr"
 )
 
@@ -22,9 +23,10 @@ func (h *Hydratable) HashQuery(query string) (string, *Concept, error) {
 	}
 	var namespace string
 	var concepts []Concept
-	for key, value := range h.Folder.Namespaces {
-		if value == base {
+	for _, key := range order.Keys(h.Folder.Namespaces) {
+		if h.Folder.Namespaces[key] == base {
 			namespace = key
+			break
 		}
 	}
 	if attr.IsValidUrl(base) {
-- 
2.43.0


From 2338a5496a0d4570e21fb1cac4909da956b38a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:27 +0000
Subject: [PATCH 33/45] fix: list typed members in a fixed order

The columns of a grid are sorted by their members, whose order changed from
request to request.
---
 pkg/renderables/typedMember.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/renderables/typedMember.go b/pkg/renderables/typedMember.go
index 67c642b..3c4ec05 100644
--- a/pkg/renderables/typedMember.go
+++ b/pkg/renderables/typedMember.go
@@ -1,6 +1,7 @@
 package renderables
 
 import (
+	"ecksbee.com/telefacts/internal/order"
 	"ecksbee.com/telefacts/pkg/hydratables"
 	myarcs "github.com/joshuanario/arcs"
 )
@@ -27,7 +28,7 @@ func getTypedMember(typedMember hydratables.TypedMember, dimension Dimension,
 	labelPacks := []LabelPack{
 		dimension.Label,
 	}
-	for typedDomain, typedMember := range typedMember.TypedMembersMap {
+	for _, typedDomain := range order.Keys(typedMember.TypedMembersMap) {
 		typedDomainLabel := GetLabel(h, typedDomain)
 		ret = append(ret, RelevantMember{
 			Dimension: dimension,
@@ -35,7 +36,7 @@ func getTypedMember(typedMember hydratables.TypedMember, dimension Dimension,
 				Href:  typedDomain,
 				Label: typedDomainLabel,
 			},
-			TypedMember: typedMember,
+			TypedMember: typedMember.TypedMembersMap[typedDomain],
 		})
 	}
 	return ret, arcs, labelPacks
-- 
2.43.0


From b2bc372455be03e2629b8d0076ce41b7106758e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:34 +0000
Subject: [PATCH 34/45] fix: mark typed members of a segment as such

---
 pkg/renderables/typedMember.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/renderables/typedMember.go b/pkg/renderables/typedMember.go
index 3c4ec05..6ee3044 100644
--- a/pkg/renderables/typedMember.go
+++ b/pkg/renderables/typedMember.go
@@ -37,6 +37,7 @@ func getTypedMember(typedMember hydratables.TypedMember, dimension Dimension,
 				Label: typedDomainLabel,
 			},
 			TypedMember: typedMember.TypedMembersMap[typedDomain],
+			IsSegment:   isSegment,
 		})
 	}
 	return ret, arcs, labelPacks
-- 
2.43.0


From 14512d43541b748599152b50ab291b6e3bafcdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:13 +0000
Subject: [PATCH 35/45] fix: give every typed member row its own dimension

The rows of all typed dimensions after the first showed the first one, and so
did the scenario when the segment has typed members too.
---
 pkg/renderables/contextualQuadrant.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pkg/renderables/contextualQuadrant.go b/pkg/renderables/contextualQuadrant.go
index 1d3fead..5b5ab5d 100644
--- a/pkg/renderables/contextualQuadrant.go
+++ b/pkg/renderables/contextualQuadrant.go
@@ -170,22 +170,19 @@ func getVoidQuadrant(relevantContexts []relevantContext, segmentTypedDomainTrees
 
 	reducedSegmentTypedDomainTree := reduceTrees(segmentTypedDomainTrees)
 	reducedScenarioTypedDomainTree := reduceTrees(scenarioTypedDomainTrees)
-	var dimension *Dimension
-	var makeIndents func(node *myarcs.RArc, level int, isParenthesized bool)
-	makeIndents = func(node *myarcs.RArc, level int, isParenthesized bool) {
-		if dimension == nil && node.Locator != "" {
+	var makeIndents func(node *myarcs.RArc, level int, isParenthesized bool, dimension Dimension)
+	makeIndents = func(node *myarcs.RArc, level int, isParenthesized bool, dimension Dimension) {
+		if level == 1 {
 			mappedDimension, ok := allDimensionMap[node.Locator]
 			if !ok {
 				ret = VoidQuadrant{}
 				return
 			}
-			dimension = mappedDimension
-		}
-		if level == 1 {
+			dimension = *mappedDimension
 			ret = append(ret, &VoidCell{
 				IsParenthesized: isParenthesized,
 				Indentation:     level,
-				Dimension:       *dimension,
+				Dimension:       dimension,
 				TypedDomain:     nil,
 			})
 		}
@@ -199,7 +196,7 @@ func getVoidQuadrant(relevantContexts []relevantContext, segmentTypedDomainTrees
 				ret = append(ret, &VoidCell{
 					IsParenthesized: isParenthesized,
 					Indentation:     level,
-					Dimension:       *dimension,
+					Dimension:       dimension,
 					TypedDomain:     typedDomain,
 				})
 			}
@@ -211,11 +208,11 @@ func getVoidQuadrant(relevantContexts []relevantContext, segmentTypedDomainTrees
 			return node.Children[p].Order < node.Children[q].Order
 		})
 		for _, c := range node.Children {
-			makeIndents(c, level+1, isParenthesized)
+			makeIndents(c, level+1, isParenthesized, dimension)
 		}
 	}
-	makeIndents(&reducedSegmentTypedDomainTree, 0, false)
-	makeIndents(&reducedScenarioTypedDomainTree, 0, true)
+	makeIndents(&reducedSegmentTypedDomainTree, 0, false, Dimension{})
+	makeIndents(&reducedScenarioTypedDomainTree, 0, true, Dimension{})
 	return ret
 }
 
-- 
2.43.0


From 2ab1e139e4e148cbd3ed993c17d511bbf697f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:19 +0000
Subject: [PATCH 36/45] fix: look for footnotes in every footnote link

The search ended at the first link without fact footnotes.
---
 pkg/hydratables/fact.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hydratables/fact.go b/pkg/hydratables/fact.go
index f33dd3a..d7b3209 100644
--- a/pkg/hydratables/fact.go
+++ b/pkg/hydratables/fact.go
@@ -54,7 +54,7 @@ func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
 			root := graph.Tree(fnoteArcs, attr.FactFootnoteArcrole)
 			ret := make([]*Footnote, 0, len(arcs))
 			if len(root.Children) <= 0 {
-				return nil
+				continue
 			}
 			for _, child := range root.Children {
 				href := mapFnoteLocatorToHref(&instance, child.Locator)
-- 
2.43.0


From 1364c3e2bf114bc045d9e88019ddfb8ebc546e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:00 +0000
Subject: [PATCH 37/45] fix: escape the text of a text block

The text was unescaped and put as it is into the markup that is shown, so
escaped markup of a filing, scripts included, became live.
---
 pkg/renderables/textBlock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderables/textBlock.go b/pkg/renderables/textBlock.go
index 5fac5fe..421bf34 100644
--- a/pkg/renderables/textBlock.go
+++ b/pkg/renderables/textBlock.go
@@ -110,7 +110,7 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 		case html.TextToken:
 			data := strings.TrimSpace(token.Data)
 			if len(data) > 0 {
-				tokenized += data + " "
+				tokenized += gohtml.EscapeString(data) + " "
 			}
 		case html.EndTagToken:
 			switch token.Data {
-- 
2.43.0


From 43e52d02e69146bd2447a649b3c59c969d5e44bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:07 +0000
Subject: [PATCH 38/45] fix: limit the column span of table cells

A single cell with a huge span kept a request busy and exhausted the memory.
---
 pkg/renderables/textBlock.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/renderables/textBlock.go b/pkg/renderables/textBlock.go
index 421bf34..58d8a49 100644
--- a/pkg/renderables/textBlock.go
+++ b/pkg/renderables/textBlock.go
@@ -21,11 +21,17 @@ func findHtmlAttr(attrs []html.Attribute, attr string) *html.Attribute {
 	return nil
 }
 
+// maxColSpan is the limit that the HTML standard sets.
+const maxColSpan = 1000
+
 func colSpanHelper(attrs []html.Attribute, cb func(int)) {
 	a := findHtmlAttr(attrs, "colspan")
 	if a != nil {
 		colspan, err := strconv.Atoi(a.Val)
 		if err == nil {
+			if colspan > maxColSpan {
+				colspan = maxColSpan
+			}
 			for i := 0; i < colspan-1; i++ {
 				cb(colspan)
 			}
-- 
2.43.0


From 08e2d770bc3110d632441361d4aeebfbaee35e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:15 +0000
Subject: [PATCH 39/45] fix: read the role types of every annotation

Only the first appinfo of the first annotation was read, so relationship sets
declared in any other were missing from the catalog.
---
 pkg/hydratables/schema.go | 69 ++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 34 deletions(-)

diff --git a/pkg/hydratables/schema.go b/pkg/hydratables/schema.go
index e115d82..05d7dbe 100644
--- a/pkg/hydratables/schema.go
+++ b/pkg/hydratables/schema.go
@@ -90,46 +90,47 @@ func hydrateAnnotation(file *serializables.SchemaFile) Annotation {
 	if len(file.Annotation) <= 0 {
 		return ret
 	}
-	if file.Annotation[0].XMLName.Space != attr.XSD {
-		return ret
-	}
-	if len(file.Annotation[0].Appinfo) <= 0 {
-		return ret
-	}
-	if file.Annotation[0].Appinfo[0].XMLName.Space != attr.XSD {
-		return ret
-	}
-	roleTypes := make([]RoleType, 0, len(file.Annotation[0].Appinfo[0].RoleType))
-	for _, roleType := range file.Annotation[0].Appinfo[0].RoleType {
-		if roleType.XMLName.Space != attr.LINK {
+	roleTypes := make([]RoleType, 0)
+	for _, annotation := range file.Annotation {
+		if annotation.XMLName.Space != attr.XSD {
 			continue
 		}
-		newRoleType := RoleType{}
-		idAttr := attr.FindAttr(roleType.XMLAttrs, "id")
-		if idAttr == nil || idAttr.Value == "" {
-			continue
-		}
-		newRoleType.ID = idAttr.Value
-		roleuriAttr := attr.FindAttr(roleType.XMLAttrs, "roleURI")
-		if roleuriAttr == nil || roleuriAttr.Value == "" {
-			continue
-		}
-		newRoleType.RoleURI = roleuriAttr.Value
-		if len(roleType.Definition) > 0 {
-			newRoleType.Definition = roleType.Definition[0].CharData
-		}
-		if len(roleType.UsedOn) > 0 {
-			newRoleType.UsedOn = make([]struct{ CharData string }, 0, len(roleType.UsedOn))
-			for _, usedOn := range roleType.UsedOn {
-				if usedOn.XMLName.Space != attr.LINK {
+		for _, appinfo := range annotation.Appinfo {
+			if appinfo.XMLName.Space != attr.XSD {
+				continue
+			}
+			for _, roleType := range appinfo.RoleType {
+				if roleType.XMLName.Space != attr.LINK {
+					continue
+				}
+				newRoleType := RoleType{}
+				idAttr := attr.FindAttr(roleType.XMLAttrs, "id")
+				if idAttr == nil || idAttr.Value == "" {
 					continue
 				}
-				newRoleType.UsedOn = append(newRoleType.UsedOn, struct{ CharData string }{
-					CharData: usedOn.CharData,
-				})
+				newRoleType.ID = idAttr.Value
+				roleuriAttr := attr.FindAttr(roleType.XMLAttrs, "roleURI")
+				if roleuriAttr == nil || roleuriAttr.Value == "" {
+					continue
+				}
+				newRoleType.RoleURI = roleuriAttr.Value
+				if len(roleType.Definition) > 0 {
+					newRoleType.Definition = roleType.Definition[0].CharData
+				}
+				if len(roleType.UsedOn) > 0 {
+					newRoleType.UsedOn = make([]struct{ CharData string }, 0, len(roleType.UsedOn))
+					for _, usedOn := range roleType.UsedOn {
+						if usedOn.XMLName.Space != attr.LINK {
+							continue
+						}
+						newRoleType.UsedOn = append(newRoleType.UsedOn, struct{ CharData string }{
+							CharData: usedOn.CharData,
+						})
+					}
+				}
+				roleTypes = append(roleTypes, newRoleType)
 			}
 		}
-		roleTypes = append(roleTypes, newRoleType)
 	}
 	return Annotation{
 		Appinfo: Appinfo{
-- 
2.43.0


From 5c5e529c51c9a046852ec9151a25e3be55e329bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:35 +0000
Subject: [PATCH 40/45] fix: report a folder whose description cannot be
 written

Failing to open or to close the file went unnoticed and the folder was
reported as created.
---
 pkg/serializables/underscore.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/serializables/underscore.go b/pkg/serializables/underscore.go
index 2546af2..ee64efd 100644
--- a/pkg/serializables/underscore.go
+++ b/pkg/serializables/underscore.go
@@ -60,12 +60,19 @@ func NewFolder(key string, underscore Underscore) (string, error) {
 		return "", err
 	}
 	meta := filepath.Join(pathStr, "_")
-	file, _ := os.OpenFile(meta, os.O_CREATE|os.O_WRONLY, 0755)
+	file, err := os.OpenFile(meta, os.O_CREATE|os.O_WRONLY, 0755)
+	if err != nil {
+		return "", err
+	}
 	defer file.Close()
 	encoder := json.NewEncoder(file)
 	err = encoder.Encode(underscore)
 	if err != nil {
 		return "", err
 	}
+	err = file.Close()
+	if err != nil {
+		return "", err
+	}
 	return id.String(), nil
 }
-- 
2.43.0


From be35e9a1d9df78891fe2ebb874ed44a0f42ef507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:42 +0000
Subject: [PATCH 41/45] fix: report a file that cannot be closed after writing

---
 internal/actions/writeFile.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/actions/writeFile.go b/internal/actions/writeFile.go
index 0ae956d..b58bf25 100644
--- a/internal/actions/writeFile.go
+++ b/internal/actions/writeFile.go
@@ -4,13 +4,13 @@ import "os"
 
 func WriteFile(dest string, data []byte) error {
 	file, err := os.OpenFile(dest, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755)
-	defer file.Close()
 	if err != nil {
 		return err
 	}
+	defer file.Close()
 	_, err = file.Write(data)
 	if err != nil {
 		return err
 	}
-	return nil
+	return file.Close()
 }
-- 
2.43.0


From 1758bd927fe68c222c8e35e1f1efefb74738584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:02 +0000
Subject: [PATCH 42/45] fix: compare both halves of the name when closing a
 typed member

A closing tag that differed from the open element in only its namespace
or only its local name was taken for the end of that element.
---
 pkg/hydratables/instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index f52386d..f0e469c 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -384,7 +384,7 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 					return nil, nil
 				}
 				endElemName := attr.Xmlns(instanceFile.XMLAttrs, endElem.Name.Space+":"+endElem.Name.Local)
-				if (popped.XMLName.Local != endElemName.Local) && (popped.XMLName.Space != endElemName.Space) {
+				if popped.XMLName.Local != endElemName.Local || popped.XMLName.Space != endElemName.Space {
 					return nil, nil
 				}
 				prev, ok = stack.Pop()
-- 
2.43.0


From 8fadd55997141fa58dcd1f10c65ace891839b291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:04 +0000
Subject: [PATCH 43/45] fix: show the weight of a contributing concept with all
 its digits

---
 pkg/renderables/calculationGrid.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/renderables/calculationGrid.go b/pkg/renderables/calculationGrid.go
index 2e00361..ec81244 100644
--- a/pkg/renderables/calculationGrid.go
+++ b/pkg/renderables/calculationGrid.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 	"math"
 	"sort"
+	"strconv"
+	"strings"
 
 	"ecksbee.com/telefacts/internal/order"
 	"ecksbee.com/telefacts/pkg/attr"
@@ -102,7 +104,10 @@ func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.
 					for _, cstruct := range slice {
 						_, isSummationItem := cMap[cstruct.Href]
 						sign := fmt.Sprintf("%c", cstruct.Sign)
-						scale := fmt.Sprintf("%.1f", cstruct.Scale)
+						scale := strconv.FormatFloat(cstruct.Scale, 'f', -1, 64)
+						if !strings.Contains(scale, ".") {
+							scale += ".0"
+						}
 						cLabelPack := GetLabel(h, cstruct.Href)
 						_, concept, err := h.HashQuery(cstruct.Href)
 						if err != nil {
-- 
2.43.0


From 2e31a5cf60b537cf4cdfb631bf4971b0f28b3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:04 +0000
Subject: [PATCH 44/45] fix: show numbers that are not finite as reported

Formatting an infinite number subtracted infinities of equal sign, which
panics inside of a goroutine and ends the process.
---
 pkg/renderables/fact.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/renderables/fact.go b/pkg/renderables/fact.go
index 920bb57..a872f9b 100644
--- a/pkg/renderables/fact.go
+++ b/pkg/renderables/fact.go
@@ -52,6 +52,10 @@ func render(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFinder, lang
 }
 
 func SigFigs(value string, precision hydratables.Precision, concept *hydratables.Concept, g rune) (*FactExpression, error) {
+	f, _, err := big.ParseFloat(value, 10, digits.PREC_BITS, big.ToZero)
+	if err != nil || f.IsInf() {
+		return nil, fmt.Errorf("failed to convert fact to numeric expression")
+	}
 	isPercent := concept.Type.Space == attr.NUM &&
 		concept.Type.Local == attr.PercentItemType
 	if isPercent {
-- 
2.43.0


From 4ba901094cda22f9ac9b4ce5778d5cce2de8cac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:14 +0000
Subject: [PATCH 45/45] fix: show numbers of extreme magnitude as reported

A number such as 1e600000000 was written out with all of its digits, which
takes hours and gigabytes.
---
 pkg/renderables/fact.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/renderables/fact.go b/pkg/renderables/fact.go
index a872f9b..db4da3d 100644
--- a/pkg/renderables/fact.go
+++ b/pkg/renderables/fact.go
@@ -51,11 +51,18 @@ func render(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFinder, lang
 	return &ret
 }
 
+// maxExponent is the binary exponent of the largest double.
+const maxExponent = 1024
+
 func SigFigs(value string, precision hydratables.Precision, concept *hydratables.Concept, g rune) (*FactExpression, error) {
 	f, _, err := big.ParseFloat(value, 10, digits.PREC_BITS, big.ToZero)
 	if err != nil || f.IsInf() {
 		return nil, fmt.Errorf("failed to convert fact to numeric expression")
 	}
+	// a short exponent can stand for millions of digits
+	if exp, limit := f.MantExp(nil), maxExponent+4*len(value); exp > limit || exp < -limit {
+		return nil, fmt.Errorf("failed to convert fact to numeric expression")
+	}
 	isPercent := concept.Type.Space == attr.NUM &&
 		concept.Type.Local == attr.PercentItemType
 	if isPercent {
-- 
2.43.0

