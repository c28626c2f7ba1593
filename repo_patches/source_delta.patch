From 8389cc2b0c64c99d4dfea2d498b7e29bd3c96460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:10 +0000
Subject: [PATCH 01/26] fix: follow the references of each schema once when
 opening a folder

Schemas that include or import each other made discovery recurse without end.
Schemas reached along several paths were followed once per path, which grows
exponentially with the depth of the imports.
---
 pkg/serializables/folder.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index d788093..44e7321 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -16,6 +16,7 @@ import (
 
 type Folder struct {
 	wLock                 sync.Mutex
+	visited               map[string]bool
 	EntryFileName         string
 	Dir                   string
 	Document              *Document
@@ -38,6 +39,7 @@ func Discover(id string) (*Folder, error) {
 	ret := &Folder{
 		EntryFileName:         entryFileName,
 		Dir:                   workingDir,
+		visited:               make(map[string]bool),
 		Namespaces:            make(map[string]string),
 		Instances:             make(map[string]InstanceFile),
 		Schemas:               make(map[string]SchemaFile),
@@ -126,6 +128,9 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 			folder.wLock.Lock()
 			folder.Namespaces[targetNS.Value] = hrefAttr.Value
 			folder.wLock.Unlock()
+			if !folder.visit(hrefAttr.Value) {
+				return
+			}
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
@@ -149,6 +154,17 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 	wg.Wait()
 }
 
+// visit reports whether the references of the schema at a location are yet to be followed.
+func (folder *Folder) visit(location string) bool {
+	folder.wLock.Lock()
+	defer folder.wLock.Unlock()
+	if folder.visited[location] {
+		return false
+	}
+	folder.visited[location] = true
+	return true
+}
+
 func (folder *Folder) includeSchema(file *SchemaFile) {
 	if file == nil {
 		return
@@ -185,6 +201,9 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 			folder.wLock.Lock()
 			folder.Namespaces[targetNS.Value] = schemaLocationAttr.Value
 			folder.wLock.Unlock()
+			if !folder.visit(schemaLocationAttr.Value) {
+				return
+			}
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
@@ -244,6 +263,9 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 			if err != nil {
 				return
 			}
+			if !folder.visit(schemaLocationAttr.Value) {
+				return
+			}
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
-- 
2.43.0


From b22e1f8aa778ac7c670d4abb97e2694992f73475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:47 +0000
Subject: [PATCH 02/26] fix: do not cache the result of a failed request

A folder, network, catalog or fact that could not be read was stored as an empty
result. Later requests got an empty answer, or a nil folder that crashed them,
even after the cause of the failure was gone.
---
 pkg/cache/cache.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/cache/cache.go b/pkg/cache/cache.go
index a0cdfd3..1162cde 100644
--- a/pkg/cache/cache.go
+++ b/pkg/cache/cache.go
@@ -49,6 +49,9 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 	}
 	lock.RUnlock()
 	byteArr, err := renderables.MarshalExpressable(name, contextref, h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -91,6 +94,9 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 		}
 	}
 	byteArr, err := renderables.MarshalRenderable(hash, h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -117,6 +123,9 @@ func MarshalCatalog(id string) ([]byte, error) {
 	}
 	lock.RUnlock()
 	byteArr, err := renderables.MarshalCatalog(h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -143,6 +152,9 @@ func hydratable(id string) (*hydratables.Hydratable, error) {
 		return nil, fmt.Errorf("failed to discover folder, %v", err)
 	}
 	ret, err := hydratables.Hydrate(folder)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
-- 
2.43.0


From c24710e259968080ee520b8aeee063ec4ebdce0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:55 +0000
Subject: [PATCH 03/26] fix: keep different cached items under different keys

Folders, networks, catalogs, facts and the reference files share one cache. A
request for a folder named like the key of another item, such as names.json, got
a value of the wrong type and panicked while it held the read lock, after which
the cache could not be written any more. The key of a fact joined the name and the
context with a colon, so two different requests could share an answer.
---
 pkg/cache/cache.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pkg/cache/cache.go b/pkg/cache/cache.go
index 1162cde..824adf5 100644
--- a/pkg/cache/cache.go
+++ b/pkg/cache/cache.go
@@ -1,9 +1,7 @@
 package cache
 
 import (
-	"encoding/hex"
 	"fmt"
-	"hash/fnv"
 	"path/filepath"
 	"sync"
 
@@ -31,14 +29,17 @@ func NewCache(runDry bool) *gocache.Cache {
 	return appCache
 }
 
+// key names a cached item. Different kinds of items, and different items of a kind, never share a name.
+func key(parts ...string) string {
+	return fmt.Sprintf("%q", parts)
+}
+
 func MarshalExpressable(id string, name string, contextref string) ([]byte, error) {
 	h, err := hydratable(id)
 	if err != nil {
 		return nil, err
 	}
-	hash := fnv.New128a()
-	hash.Write([]byte(id + "/facts/" + name + ":" + contextref))
-	cachekey := hex.EncodeToString(hash.Sum([]byte{}))
+	cachekey := key("fact", id, name, contextref)
 	lock.RLock()
 	if !dry {
 		if x, found := appCache.Get(cachekey); found {
@@ -66,7 +67,7 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 func MarshalRenderable(id string, hash string) ([]byte, error) {
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id + "/" + hash); found {
+		if x, found := appCache.Get(key("renderable", id, hash)); found {
 			ret := x.([]byte)
 			lock.RUnlock()
 			return ret, nil
@@ -88,7 +89,7 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 			go func() {
 				lock.Lock()
 				defer lock.Unlock()
-				appCache.Set(id+"/"+hash, data, gocache.DefaultExpiration)
+				appCache.Set(key("renderable", id, hash), data, gocache.DefaultExpiration)
 			}()
 			return data, nil
 		}
@@ -103,7 +104,7 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id+"/"+hash, byteArr, gocache.DefaultExpiration)
+		appCache.Set(key("renderable", id, hash), byteArr, gocache.DefaultExpiration)
 	}()
 	return byteArr, err
 }
@@ -115,7 +116,7 @@ func MarshalCatalog(id string) ([]byte, error) {
 	}
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id + "/"); found {
+		if x, found := appCache.Get(key("catalog", id)); found {
 			ret := x.([]byte)
 			lock.RUnlock()
 			return ret, nil
@@ -132,7 +133,7 @@ func MarshalCatalog(id string) ([]byte, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id+"/", byteArr, gocache.DefaultExpiration)
+		appCache.Set(key("catalog", id), byteArr, gocache.DefaultExpiration)
 	}()
 	return byteArr, err
 }
@@ -140,7 +141,7 @@ func MarshalCatalog(id string) ([]byte, error) {
 func hydratable(id string) (*hydratables.Hydratable, error) {
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id); found {
+		if x, found := appCache.Get(key("folder", id)); found {
 			ret := x.(*hydratables.Hydratable)
 			lock.RUnlock()
 			return ret, nil
@@ -161,7 +162,7 @@ func hydratable(id string) (*hydratables.Hydratable, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id, ret, gocache.DefaultExpiration)
+		appCache.Set(key("folder", id), ret, gocache.DefaultExpiration)
 	}()
 	return ret, err
 }
-- 
2.43.0


From 17b3ea3f0c8f1ea6088578932a11555f9a642489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:15 +0000
Subject: [PATCH 04/26] fix: do not take another reference file for a global
 schema

A schema that imports the location of the unit registry found the registry in the
cache under that location. The conversion to a schema panicked while the read lock
was held.
---
 pkg/hydratables/global.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/hydratables/global.go b/pkg/hydratables/global.go
index 3455052..9b89972 100644
--- a/pkg/hydratables/global.go
+++ b/pkg/hydratables/global.go
@@ -22,8 +22,9 @@ func HydrateGlobalSchema(urlStr string) (*Schema, error) {
 	if globalCache == nil {
 		return nil, fmt.Errorf("no accessible cache")
 	}
+	key := "schema:" + urlStr
 	lock.RLock()
-	if x, found := globalCache.Get(urlStr); found {
+	if x, found := globalCache.Get(key); found {
 		ret := x.(Schema)
 		lock.RUnlock()
 		return &ret, nil
@@ -40,7 +41,7 @@ func HydrateGlobalSchema(urlStr string) (*Schema, error) {
 	go func() {
 		lock.Lock()
 		defer lock.Unlock()
-		globalCache.Set(urlStr, *schema, gocache.DefaultExpiration)
+		globalCache.Set(key, *schema, gocache.DefaultExpiration)
 	}()
 	return schema, err
 }
-- 
2.43.0


From 0107ad4a10d8cf49cdff716342f1c82ad28179bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:57 +0000
Subject: [PATCH 05/26] fix: give each query of an inline document its own
 error

The goroutines that collect the parts of an inline document wrote to the same error
variables, so one could see or overwrite the error of another.
---
 pkg/serializables/document.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pkg/serializables/document.go b/pkg/serializables/document.go
index e535dfb..57dfa06 100644
--- a/pkg/serializables/document.go
+++ b/pkg/serializables/document.go
@@ -33,10 +33,10 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 		return nil
 	}
 	var html *xmlquery.Node
-	var goErr error
 	htmlDone := make(chan bool)
 	go func() {
 		defer func() { htmlDone <- true }()
+		var goErr error
 		html, goErr = xmlquery.Query(doc, "//*[local-name()='html']")
 		if html == nil {
 			fmt.Println("Error: missing html")
@@ -50,6 +50,7 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	schemaRefsDone := make(chan bool)
 	go func() {
 		defer func() { schemaRefsDone <- true }()
+		var goErr error
 		schemaRefs, goErr = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='schemaRef' and namespace-uri()='"+attr.LINK+"']")
 		if goErr != nil {
 			schemaRefs = make([]*xmlquery.Node, 0)
@@ -60,7 +61,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	contextsDone := make(chan bool)
 	go func() {
 		defer func() { contextsDone <- true }()
-		contexts, err = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='context' and namespace-uri()='"+attr.XBRLI+"']")
+		var goErr error
+		contexts, goErr = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='context' and namespace-uri()='"+attr.XBRLI+"']")
 		if goErr != nil {
 			contexts = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -70,7 +72,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	unitsDone := make(chan bool)
 	go func() {
 		defer func() { unitsDone <- true }()
-		units, err = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='unit' and namespace-uri()='"+attr.XBRLI+"']")
+		var goErr error
+		units, goErr = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='unit' and namespace-uri()='"+attr.XBRLI+"']")
 		if goErr != nil {
 			units = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -80,7 +83,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	nonFractionsDone := make(chan bool)
 	go func() {
 		defer func() { nonFractionsDone <- true }()
-		nonFractions, err = xmlquery.QueryAll(doc, "//*[local-name()='nonFraction' and namespace-uri()='"+attr.IX+"']")
+		var goErr error
+		nonFractions, goErr = xmlquery.QueryAll(doc, "//*[local-name()='nonFraction' and namespace-uri()='"+attr.IX+"']")
 		if goErr != nil {
 			nonFractions = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -90,7 +94,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	nonNumericsDone := make(chan bool)
 	go func() {
 		defer func() { nonNumericsDone <- true }()
-		nonNumerics, err = xmlquery.QueryAll(doc, "//*[local-name()='nonNumeric' and namespace-uri()='"+attr.IX+"']")
+		var goErr error
+		nonNumerics, goErr = xmlquery.QueryAll(doc, "//*[local-name()='nonNumeric' and namespace-uri()='"+attr.IX+"']")
 		if goErr != nil {
 			nonNumerics = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -100,7 +105,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	excludesDone := make(chan bool)
 	go func() {
 		defer func() { excludesDone <- true }()
-		excludes, err = xmlquery.QueryAll(doc, "//*[local-name()='exclude' and namespace-uri()='"+attr.IX+"']")
+		var goErr error
+		excludes, goErr = xmlquery.QueryAll(doc, "//*[local-name()='exclude' and namespace-uri()='"+attr.IX+"']")
 		if goErr != nil {
 			excludes = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -110,7 +116,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	footnoteRelationshipsDone := make(chan bool)
 	go func() {
 		defer func() { footnoteRelationshipsDone <- true }()
-		footnoteRelationships, err = xmlquery.QueryAll(doc, "//*[local-name()='relationship' and namespace-uri()='"+attr.IX+"' and @arcrole='"+attr.FactFootnoteArcrole+"']")
+		var goErr error
+		footnoteRelationships, goErr = xmlquery.QueryAll(doc, "//*[local-name()='relationship' and namespace-uri()='"+attr.IX+"' and @arcrole='"+attr.FactFootnoteArcrole+"']")
 		if goErr != nil {
 			footnoteRelationships = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
-- 
2.43.0


From 5eb1581efa9cb29663e25a9909db2ab24a46116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:05 +0000
Subject: [PATCH 06/26] fix: survive malformed inline documents

An entry document that cannot be decoded crashed the process when the folder held
an image. A tagged fact without a name or a context, or with a name that has no
prefix, crashed it as well. The error of a tagged fact was written without a lock.
---
 pkg/attr/name.go            |  2 +-
 pkg/hydratables/document.go | 20 ++++++++++----------
 pkg/serializables/folder.go |  6 +++---
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/pkg/attr/name.go b/pkg/attr/name.go
index e6c56b2..0f891b5 100644
--- a/pkg/attr/name.go
+++ b/pkg/attr/name.go
@@ -46,7 +46,7 @@ func (np *NameProvider) ProvideXmlName(prefixed string) (*xml.Name, error) {
 	if i < 0 {
 		return &xml.Name{
 			Space: "",
-			Local: prefixed[i:],
+			Local: prefixed,
 		}, nil
 	}
 	prefix := prefix(prefixed[:i])
diff --git a/pkg/hydratables/document.go b/pkg/hydratables/document.go
index a54e030..96a73d6 100644
--- a/pkg/hydratables/document.go
+++ b/pkg/hydratables/document.go
@@ -32,20 +32,20 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 	for _, nnonNumeric := range source.NonNumerics {
 		go func(nonNumeric *xmlquery.Node) {
 			defer wg1.Done()
-			if goErr != nil {
-				return
-			}
 			name := attr.FindXpathAttr(nonNumeric.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonNumeric.Attr, "contextRef")
+			if name == nil || contextRef == nil {
+				return
+			}
 			xmlName, err := np.ProvideXmlName(name.Value)
+			lock1.Lock()
+			defer lock1.Unlock()
 			if err != nil {
 				goErr = err
 				return
 			}
-			lock1.Lock()
 			nret[name.Value] = *xmlName
 			cret[contextRef.Value] = true
-			lock1.Unlock()
 		}(nnonNumeric)
 	}
 	wg1.Wait()
@@ -59,20 +59,20 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 	for _, nnonFraction := range source.NonFractions {
 		go func(nonFraction *xmlquery.Node) {
 			defer wg2.Done()
-			if goErr2 != nil {
-				return
-			}
 			name := attr.FindXpathAttr(nonFraction.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonFraction.Attr, "contextRef")
+			if name == nil || contextRef == nil {
+				return
+			}
 			xmlName, err := np.ProvideXmlName(name.Value)
+			lock2.Lock()
+			defer lock2.Unlock()
 			if err != nil {
 				goErr2 = err
 				return
 			}
-			lock2.Lock()
 			nret[name.Value] = *xmlName
 			cret[contextRef.Value] = true
-			lock2.Unlock()
 		}(nnonFraction)
 	}
 	wg2.Wait()
diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index 44e7321..3890890 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -59,12 +59,12 @@ func Discover(id string) (*Folder, error) {
 			return nil, err
 		}
 		doc := DecodeIxbrlFile(data)
-		if len(ret.Images) > 0 {
-			doc.Bytes = TransformInlineImages(data, ret.Images)
-		}
 		if doc == nil {
 			return nil, fmt.Errorf("failed to decode IXBRL source document")
 		}
+		if len(ret.Images) > 0 {
+			doc.Bytes = TransformInlineImages(data, ret.Images)
+		}
 		ret.Document = doc
 		extracted := filepath.Join(workingDir, entryFileName+".xml")
 		if _, err := os.Stat(extracted); errors.Is(err, os.ErrNotExist) {
-- 
2.43.0


From 7805b95cbbafc0f0f64ef2eece2f529a29a5469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:14 +0000
Subject: [PATCH 07/26] fix: survive facts and contexts that refer to nothing

A fact whose context is not declared, a context without an entity, and a typed
member whose element is not declared made requests for the folder panic. So did a
request for a fact of a folder that has no inline document.
---
 pkg/hydratables/instance.go    | 8 +++++++-
 pkg/renderables/contexts.go    | 3 +++
 pkg/renderables/expressable.go | 6 ++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index b54f7f8..ea9696e 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -134,6 +134,9 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 		}
 		item.ID = idAttr.Value
 		newEntity := Entity{}
+		if len(context.Entity) <= 0 {
+			continue
+		}
 		entity := context.Entity[0]
 		if len(entity.Identifier) <= 0 {
 			continue
@@ -348,6 +351,9 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return nil, nil
+		}
 		switch token.(type) {
 		case xml.StartElement:
 			startElem, ok := token.(xml.StartElement)
@@ -357,7 +363,7 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 					continue
 				}
 				currHref, curr, err := h.NameQuery(startElemName.Space, startElemName.Local)
-				if err != nil {
+				if err != nil || curr == nil {
 					return nil, nil
 				}
 				order++
diff --git a/pkg/renderables/contexts.go b/pkg/renderables/contexts.go
index f1e311c..ae33e94 100644
--- a/pkg/renderables/contexts.go
+++ b/pkg/renderables/contexts.go
@@ -214,6 +214,9 @@ func getRelevantContexts(schemedEntity string, h *hydratables.Hydratable,
 				}
 				if factualEdgeHref == fact.Href {
 					context := getContext(&instance, fact.ContextRef)
+					if context == nil {
+						continue
+					}
 					entity := context.Entity
 					contextualSchemedEntity := entity.Identifier.Scheme + "/" + entity.Identifier.CharData
 					if contextualSchemedEntity == schemedEntity {
diff --git a/pkg/renderables/expressable.go b/pkg/renderables/expressable.go
index 36df4e0..62294de 100644
--- a/pkg/renderables/expressable.go
+++ b/pkg/renderables/expressable.go
@@ -19,6 +19,9 @@ type Expressable struct {
 }
 
 func MarshalExpressable(name string, contextref string, h *hydratables.Hydratable) ([]byte, error) {
+	if h.Document == nil {
+		return nil, nil
+	}
 	xmlname, found := h.Document.NamespaceMap[name]
 	if !found {
 		return nil, nil
@@ -42,6 +45,9 @@ func MarshalExpressable(name string, contextref string, h *hydratables.Hydratabl
 		return nil, nil
 	}
 	context := getContext(extracted, contextref)
+	if context == nil {
+		return nil, nil
+	}
 	period := periodMultilingualString(labels, context)
 	entity := stringify(&Entity{
 		Scheme:   context.Entity.Identifier.Scheme,
-- 
2.43.0


From 575db3bc3413ec04dbeb1c2d30c14e861424c487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:37 +0000
Subject: [PATCH 08/26] fix: build the grids of a network without sharing
 results

The three grids of a network are built at the same time. They appended to the same
slices without a lock, so label roles and languages could be lost, and the result
depended on which grid finished first. Each grid now has its own result.

An entity whose name is not listed failed the whole request although the code falls
back to its identifier. The error of a grid was dropped instead.
---
 pkg/renderables/renderable.go | 55 ++++++++++++-----------------------
 1 file changed, 19 insertions(+), 36 deletions(-)

diff --git a/pkg/renderables/renderable.go b/pkg/renderables/renderable.go
index 67fcd8e..07a9000 100644
--- a/pkg/renderables/renderable.go
+++ b/pkg/renderables/renderable.go
@@ -42,51 +42,37 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 			llinkrole := rset.RoleURI
 			if slug == hash(eentity, llinkrole, rset.Title) {
 				var (
-					p          PGrid
-					d          DGrid
-					c          CGrid
-					labelRoles []LabelRole
-					langs      []Lang
-					err        error
-					wg         sync.WaitGroup
+					p              PGrid
+					d              DGrid
+					c              CGrid
+					gridLabelRoles [3][]LabelRole
+					gridLangs      [3][]Lang
+					gridErrs       [3]error
+					wg             sync.WaitGroup
 				)
 				wg.Add(3)
-				labelRoles = make([]LabelRole, 0, 20)
-				langs = make([]Lang, 0, 8)
 				go func(entity string, linkrole string) {
 					defer wg.Done()
-					localP, lr, ln, localError := pGrid(entity, linkrole, h, h, h, h)
-					if localError != nil {
-						err = localError
-						return
-					}
-					p = localP
-					labelRoles = append(labelRoles, lr...)
-					langs = append(langs, ln...)
+					p, gridLabelRoles[0], gridLangs[0], gridErrs[0] = pGrid(entity, linkrole, h, h, h, h)
 				}(eentity, llinkrole)
 				go func(entity string, linkrole string) {
 					defer wg.Done()
-					localD, lr, ln, localError := dGrid(entity, linkrole, h, h, h, h)
-					if localError != nil {
-						err = localError
-						return
-					}
-					d = localD
-					labelRoles = append(labelRoles, lr...)
-					langs = append(langs, ln...)
+					d, gridLabelRoles[1], gridLangs[1], gridErrs[1] = dGrid(entity, linkrole, h, h, h, h)
 				}(eentity, llinkrole)
 				go func(entity string, linkrole string) {
 					defer wg.Done()
-					localC, lr, ln, localError := cGrid(entity, linkrole, h, h, h, h)
-					if localError != nil {
-						err = localError
-						return
-					}
-					c = localC
-					labelRoles = append(labelRoles, lr...)
-					langs = append(langs, ln...)
+					c, gridLabelRoles[2], gridLangs[2], gridErrs[2] = cGrid(entity, linkrole, h, h, h, h)
 				}(eentity, llinkrole)
 				wg.Wait()
+				labelRoles := make([]LabelRole, 0, 20)
+				langs := make([]Lang, 0, 8)
+				for i, gridErr := range gridErrs {
+					if gridErr != nil {
+						return nil, gridErr
+					}
+					labelRoles = append(labelRoles, gridLabelRoles[i]...)
+					langs = append(langs, gridLangs[i]...)
+				}
 				langs = dedupLang(langs)
 				labelRoles = dedupLabelRole(labelRoles)
 				p, d, c = formatPeriod(p, d, c, langs)
@@ -117,9 +103,6 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 					Lang:       langs,
 					LabelRoles: labelRoles,
 				}
-				if err != nil {
-					return nil, err
-				}
 				return json.Marshal(ret)
 			}
 		}
-- 
2.43.0


From 4017d7733880e6ee71a33c101fa7dfccfa472287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:45 +0000
Subject: [PATCH 09/26] fix: answer the same request the same way

Answers followed the iteration order of maps. The label roles, the languages, the
typed members and the definition links came in a random order. With several
linkbases of one kind, the label or the network that was shown was a random pick.
---
 pkg/renderables/calculationGrid.go          |  8 +++++---
 pkg/renderables/dimensionRelationshipSet.go |  3 ++-
 pkg/renderables/effectiveDomainGrid.go      |  6 ++++--
 pkg/renderables/label.go                    |  3 ++-
 pkg/renderables/labelPack.go                |  4 ++++
 pkg/renderables/presentationGrid.go         |  3 ++-
 pkg/renderables/typedMember.go              |  4 ++--
 pkg/renderables/utility.go                  | 11 +++++++++++
 8 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/pkg/renderables/calculationGrid.go b/pkg/renderables/calculationGrid.go
index 484648f..1642afb 100644
--- a/pkg/renderables/calculationGrid.go
+++ b/pkg/renderables/calculationGrid.go
@@ -46,8 +46,9 @@ func cGrid(schemedEntity string, linkroleURI string, h *hydratables.Hydratable,
 
 func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.Hydratable,
 	factFinder FactFinder, conceptFinder ConceptFinder, measurementFinder MeasurementFinder) ([]SummationItem, []LabelRole, []Lang) {
-	var calculationLinks []hydratables.CalculationLink
-	for _, calculation := range h.CalculationLinkbases {
+	for _, filename := range sortedKeys(h.CalculationLinkbases) {
+		calculation := h.CalculationLinkbases[filename]
+		var calculationLinks []hydratables.CalculationLink
 		for _, roleRef := range calculation.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
 				calculationLinks = calculation.CalculationLinks
@@ -94,7 +95,8 @@ func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.
 					langs      []Lang
 				)
 				ret := make([]SummationItem, 0, len(cMap))
-				for from, slice := range cMap {
+				for _, from := range sortedKeys(cMap) {
+					slice := cMap[from]
 					contributingConcepts := make([]ContributingConcept, 0, len(slice))
 					fqLabels := make([]string, 0, len(slice)+1)
 					for _, cstruct := range slice {
diff --git a/pkg/renderables/dimensionRelationshipSet.go b/pkg/renderables/dimensionRelationshipSet.go
index 2b0883c..4b7160c 100644
--- a/pkg/renderables/dimensionRelationshipSet.go
+++ b/pkg/renderables/dimensionRelationshipSet.go
@@ -53,7 +53,8 @@ func getDRS(schemedEntity string, linkroleURI string, h *hydratables.Hydratable)
 	links := make([]DRSLink, 0, 20)
 	hrefs := make(map[string]int)
 
-	for _, definition := range h.DefinitionLinkbases {
+	for _, filename := range sortedKeys(h.DefinitionLinkbases) {
+		definition := h.DefinitionLinkbases[filename]
 		var definitionLinks []hydratables.DefinitionLink
 		for _, roleRef := range definition.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index e363f7b..46edd17 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -63,7 +63,8 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 	labelRoles := []LabelRole{}
 	langs := []Lang{}
 	labelPacks := make([]LabelPack, 0, 100)
-	for _, definition := range h.DefinitionLinkbases {
+	for _, filename := range sortedKeys(h.DefinitionLinkbases) {
+		definition := h.DefinitionLinkbases[filename]
 		var definitionLinks []hydratables.DefinitionLink
 		for _, roleRef := range definition.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
@@ -162,7 +163,8 @@ func getEffectiveDimensions(linkroleURI string,
 	effectiveDimensionMap := make(map[string]bool)
 	effectiveDimensions := make([]EffectiveDimension, 0, len(arcs))
 	effectiveDimensionHrefs := make([]string, 0, len(arcs))
-	for _, definition := range h.DefinitionLinkbases {
+	for _, filename := range sortedKeys(h.DefinitionLinkbases) {
+		definition := h.DefinitionLinkbases[filename]
 		for _, arc := range arcs {
 			if arc.Arcrole == attr.HypercubeDimensionArcrole {
 				dim := mapDLocatorToHref(linkroleURI, &definition, arc.To)
diff --git a/pkg/renderables/label.go b/pkg/renderables/label.go
index 804ac2b..6840f56 100644
--- a/pkg/renderables/label.go
+++ b/pkg/renderables/label.go
@@ -21,7 +21,8 @@ func GetLabel(h *hydratables.Hydratable, href string) LabelPack {
 
 func appendLabelModifiersFromHref(labelPack LabelPack, h *hydratables.Hydratable, href string) LabelPack {
 	ret := labelPack
-	for _, labels := range h.LabelLinkbases {
+	for _, filename := range sortedKeys(h.LabelLinkbases) {
+		labels := h.LabelLinkbases[filename]
 		for _, labelLink := range labels.LabelLink {
 			for _, loc := range labelLink.Locs {
 				if loc.Href == href {
diff --git a/pkg/renderables/labelPack.go b/pkg/renderables/labelPack.go
index 06afe3b..370ffcc 100644
--- a/pkg/renderables/labelPack.go
+++ b/pkg/renderables/labelPack.go
@@ -1,5 +1,7 @@
 package renderables
 
+import "sort"
+
 type LabelRole string
 type Lang string
 
@@ -56,6 +58,8 @@ func destruct(labelPack LabelPack) ([]LabelRole, []Lang) {
 			langs = append(langs, lang)
 		}
 	}
+	sort.Slice(labelRoles, func(i, j int) bool { return labelRoles[i] < labelRoles[j] })
+	sort.Slice(langs, func(i, j int) bool { return langs[i] < langs[j] })
 	return labelRoles, langs
 }
 
diff --git a/pkg/renderables/presentationGrid.go b/pkg/renderables/presentationGrid.go
index 6cc34a8..7fa875c 100644
--- a/pkg/renderables/presentationGrid.go
+++ b/pkg/renderables/presentationGrid.go
@@ -70,7 +70,8 @@ func pArcs(pArcs []hydratables.PresentationArc) []myarcs.Arc {
 
 func getIndentedLabels(linkroleURI string, h *hydratables.Hydratable) ([]IndentedLabel, []LabelPack) {
 	labelPacks := make([]LabelPack, 0, 100)
-	for _, presentation := range h.PresentationLinkbases {
+	for _, filename := range sortedKeys(h.PresentationLinkbases) {
+		presentation := h.PresentationLinkbases[filename]
 		var presentationLinks []hydratables.PresentationLink
 		for _, roleRef := range presentation.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
diff --git a/pkg/renderables/typedMember.go b/pkg/renderables/typedMember.go
index 67c642b..5399ced 100644
--- a/pkg/renderables/typedMember.go
+++ b/pkg/renderables/typedMember.go
@@ -27,7 +27,7 @@ func getTypedMember(typedMember hydratables.TypedMember, dimension Dimension,
 	labelPacks := []LabelPack{
 		dimension.Label,
 	}
-	for typedDomain, typedMember := range typedMember.TypedMembersMap {
+	for _, typedDomain := range sortedKeys(typedMember.TypedMembersMap) {
 		typedDomainLabel := GetLabel(h, typedDomain)
 		ret = append(ret, RelevantMember{
 			Dimension: dimension,
@@ -35,7 +35,7 @@ func getTypedMember(typedMember hydratables.TypedMember, dimension Dimension,
 				Href:  typedDomain,
 				Label: typedDomainLabel,
 			},
-			TypedMember: typedMember,
+			TypedMember: typedMember.TypedMembersMap[typedDomain],
 		})
 	}
 	return ret, arcs, labelPacks
diff --git a/pkg/renderables/utility.go b/pkg/renderables/utility.go
index 38232a3..46df9af 100644
--- a/pkg/renderables/utility.go
+++ b/pkg/renderables/utility.go
@@ -1,5 +1,16 @@
 package renderables
 
+import "sort"
+
+func sortedKeys[V any](m map[string]V) []string {
+	ret := make([]string, 0, len(m))
+	for key := range m {
+		ret = append(ret, key)
+	}
+	sort.Strings(ret)
+	return ret
+}
+
 func stringInSlice(a string, list []string) bool {
 	for _, b := range list {
 		if b == a {
-- 
2.43.0


From 581be8e0c1a33c3091b85c480232d269e61b24fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:53 +0000
Subject: [PATCH 10/26] fix: number the footnotes of a grid in the order of
 their texts

The numbers in the cells and the list of texts were taken from two iterations over
one map. The two could differ, so a number could point to the wrong footnote.
---
 pkg/renderables/factualQuadrant.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/renderables/factualQuadrant.go b/pkg/renderables/factualQuadrant.go
index b6b1922..07c4748 100644
--- a/pkg/renderables/factualQuadrant.go
+++ b/pkg/renderables/factualQuadrant.go
@@ -26,6 +26,7 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 	ret := make([][]*MultilingualFact, rowCount)
 	footnoteGrid := make([][][]*hydratables.Footnote, rowCount)
 	idMap := make(map[string]*hydratables.Footnote)
+	ids := make([]string, 0)
 	for i := 0; i < rowCount; i++ {
 		row := make([]*MultilingualFact, colCount)
 		footnoteRow := make([][]*hydratables.Footnote, colCount)
@@ -39,6 +40,7 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			for _, footnote := range footnotes {
 				if _, found := idMap[footnote.ID]; !found {
 					idMap[footnote.ID] = footnote
+					ids = append(ids, footnote.ID)
 				}
 			}
 			row[j] = render(fact, conceptFinder, measurementFinder, langs)
@@ -55,7 +57,7 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			footnotes := footnoteGrid[i][j]
 			k := 1
 			ints := make([]int, 0)
-			for id := range idMap {
+			for _, id := range ids {
 				for _, footnote := range footnotes {
 					if footnote.ID == id {
 						ints = append(ints, k)
@@ -67,8 +69,8 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			grid[i][j] = ints
 		}
 	}
-	for _, footnote := range idMap {
-		arr = append(arr, footnote.InnerHtml)
+	for _, id := range ids {
+		arr = append(arr, idMap[id].InnerHtml)
 	}
 	return ret, grid, arr
 }
-- 
2.43.0


From ed2ae2400aba1d1d5a106115f1628cd395db31ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:01 +0000
Subject: [PATCH 11/26] fix: show typed members under their own dimension

All typed members of a grid were listed under the first typed dimension. In the
answer for one fact, the typed dimensions of the other contexts of the concept
removed all members of its own context.
---
 pkg/renderables/contextualQuadrant.go |  2 +-
 pkg/renderables/expressable.go        | 20 +++++++-------------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/pkg/renderables/contextualQuadrant.go b/pkg/renderables/contextualQuadrant.go
index 1d3fead..2176121 100644
--- a/pkg/renderables/contextualQuadrant.go
+++ b/pkg/renderables/contextualQuadrant.go
@@ -173,7 +173,7 @@ func getVoidQuadrant(relevantContexts []relevantContext, segmentTypedDomainTrees
 	var dimension *Dimension
 	var makeIndents func(node *myarcs.RArc, level int, isParenthesized bool)
 	makeIndents = func(node *myarcs.RArc, level int, isParenthesized bool) {
-		if dimension == nil && node.Locator != "" {
+		if level == 1 {
 			mappedDimension, ok := allDimensionMap[node.Locator]
 			if !ok {
 				ret = VoidQuadrant{}
diff --git a/pkg/renderables/expressable.go b/pkg/renderables/expressable.go
index 62294de..dbb94ef 100644
--- a/pkg/renderables/expressable.go
+++ b/pkg/renderables/expressable.go
@@ -49,19 +49,13 @@ func MarshalExpressable(name string, contextref string, h *hydratables.Hydratabl
 		return nil, nil
 	}
 	period := periodMultilingualString(labels, context)
-	entity := stringify(&Entity{
-		Scheme:   context.Entity.Identifier.Scheme,
-		CharData: context.Entity.Identifier.CharData,
-	})
-	relevantContexts, segment, scenario, _ := getRelevantContexts(entity, h, []string{
-		href,
-	})
-	expressedContexts := make([]relevantContext, 0)
-	for _, relevantContext := range relevantContexts {
-		if relevantContext.ContextRef == contextref {
-			expressedContexts = append(expressedContexts, relevantContext)
-			break
-		}
+	contextualMembers, segment, scenario, _ := getContextualMembers(context, h)
+	expressedContexts := []relevantContext{
+		{
+			ContextRef:   context.ID,
+			PeriodHeader: periodString(context),
+			Members:      contextualMembers,
+		},
 	}
 	memberGrid, voidQuadrant := getMemberGridAndVoidQuadrant(expressedContexts, segment, scenario)
 	footnotes := h.GetFootnotes(hydratedFact)
-- 
2.43.0


From f9508f459e24088c7054c76bddccb930b631a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:33 +0000
Subject: [PATCH 12/26] fix: find the footnotes of a fact in every footnote
 link

The search stopped at the first footnote link without arcs and at the first one
that mentions the fact, so footnotes of later links were lost. Locators were looked
up in all links, although their labels mean something in their own link only.
---
 pkg/hydratables/fact.go | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/pkg/hydratables/fact.go b/pkg/hydratables/fact.go
index 1ba33fc..32c1f24 100644
--- a/pkg/hydratables/fact.go
+++ b/pkg/hydratables/fact.go
@@ -46,17 +46,14 @@ func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
 	if fact == nil {
 		return make([]*Footnote, 0)
 	}
+	ret := make([]*Footnote, 0)
 	for _, instance := range h.Instances {
 		for _, footnoteLink := range instance.FootnoteLinks {
 			arcs := footnoteLink.FootnoteArcs
 			fnoteArcs := fnoteArcs(arcs)
 			root := graph.Tree(fnoteArcs, attr.FactFootnoteArcrole)
-			ret := make([]*Footnote, 0, len(arcs))
-			if len(root.Children) <= 0 {
-				return nil
-			}
 			for _, child := range root.Children {
-				href := mapFnoteLocatorToHref(&instance, child.Locator)
+				href := mapFnoteLocatorToHref(&footnoteLink, child.Locator)
 				locatedID := href
 				pos := strings.LastIndex(href, "#")
 				if pos > -1 {
@@ -67,7 +64,7 @@ func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
 				}
 				if locatedID == fact.ID {
 					for _, grandchild := range child.Children {
-						footnoteHref := mapFnoteLocatorToHref(&instance, grandchild.Locator)
+						footnoteHref := mapFnoteLocatorToHref(&footnoteLink, grandchild.Locator)
 						locatedFnoteID := footnoteHref
 						pos := strings.LastIndex(footnoteHref, "#")
 						if pos > -1 {
@@ -81,23 +78,19 @@ func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
 							ret = append(ret, locatedFootnote)
 						}
 					}
-					return ret
 				}
 			}
 		}
 	}
-	return nil
+	return ret
 }
 
-func mapFnoteLocatorToHref(instance *Instance, locator string) string {
-	footnoteLinks := instance.FootnoteLinks
-	for _, footnoteLink := range footnoteLinks {
-		for _, loc := range footnoteLink.Locs {
-			if loc.Label == locator {
-				i := strings.Index(loc.Href, "#")
-				if i >= 0 {
-					return loc.Href
-				}
+func mapFnoteLocatorToHref(footnoteLink *FootnoteLink, locator string) string {
+	for _, loc := range footnoteLink.Locs {
+		if loc.Label == locator {
+			i := strings.Index(loc.Href, "#")
+			if i >= 0 {
+				return loc.Href
 			}
 		}
 	}
-- 
2.43.0


From 66ed2d4de11737629a60d99966ea8815bb9c30ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:41 +0000
Subject: [PATCH 13/26] fix: read the roles of every annotation of a schema

Only the first appinfo of the first annotation was read. A network whose role is
declared in a later one was missing from the catalog.
---
 pkg/hydratables/schema.go | 73 +++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 38 deletions(-)

diff --git a/pkg/hydratables/schema.go b/pkg/hydratables/schema.go
index e115d82..e7803d4 100644
--- a/pkg/hydratables/schema.go
+++ b/pkg/hydratables/schema.go
@@ -86,50 +86,47 @@ func hydrateAttributeFormDefault(file *serializables.SchemaFile) string {
 }
 
 func hydrateAnnotation(file *serializables.SchemaFile) Annotation {
-	ret := Annotation{}
-	if len(file.Annotation) <= 0 {
-		return ret
-	}
-	if file.Annotation[0].XMLName.Space != attr.XSD {
-		return ret
-	}
-	if len(file.Annotation[0].Appinfo) <= 0 {
-		return ret
-	}
-	if file.Annotation[0].Appinfo[0].XMLName.Space != attr.XSD {
-		return ret
-	}
-	roleTypes := make([]RoleType, 0, len(file.Annotation[0].Appinfo[0].RoleType))
-	for _, roleType := range file.Annotation[0].Appinfo[0].RoleType {
-		if roleType.XMLName.Space != attr.LINK {
-			continue
-		}
-		newRoleType := RoleType{}
-		idAttr := attr.FindAttr(roleType.XMLAttrs, "id")
-		if idAttr == nil || idAttr.Value == "" {
-			continue
-		}
-		newRoleType.ID = idAttr.Value
-		roleuriAttr := attr.FindAttr(roleType.XMLAttrs, "roleURI")
-		if roleuriAttr == nil || roleuriAttr.Value == "" {
+	roleTypes := make([]RoleType, 0)
+	for _, annotation := range file.Annotation {
+		if annotation.XMLName.Space != attr.XSD {
 			continue
 		}
-		newRoleType.RoleURI = roleuriAttr.Value
-		if len(roleType.Definition) > 0 {
-			newRoleType.Definition = roleType.Definition[0].CharData
-		}
-		if len(roleType.UsedOn) > 0 {
-			newRoleType.UsedOn = make([]struct{ CharData string }, 0, len(roleType.UsedOn))
-			for _, usedOn := range roleType.UsedOn {
-				if usedOn.XMLName.Space != attr.LINK {
+		for _, appinfo := range annotation.Appinfo {
+			if appinfo.XMLName.Space != attr.XSD {
+				continue
+			}
+			for _, roleType := range appinfo.RoleType {
+				if roleType.XMLName.Space != attr.LINK {
+					continue
+				}
+				newRoleType := RoleType{}
+				idAttr := attr.FindAttr(roleType.XMLAttrs, "id")
+				if idAttr == nil || idAttr.Value == "" {
 					continue
 				}
-				newRoleType.UsedOn = append(newRoleType.UsedOn, struct{ CharData string }{
-					CharData: usedOn.CharData,
-				})
+				newRoleType.ID = idAttr.Value
+				roleuriAttr := attr.FindAttr(roleType.XMLAttrs, "roleURI")
+				if roleuriAttr == nil || roleuriAttr.Value == "" {
+					continue
+				}
+				newRoleType.RoleURI = roleuriAttr.Value
+				if len(roleType.Definition) > 0 {
+					newRoleType.Definition = roleType.Definition[0].CharData
+				}
+				if len(roleType.UsedOn) > 0 {
+					newRoleType.UsedOn = make([]struct{ CharData string }, 0, len(roleType.UsedOn))
+					for _, usedOn := range roleType.UsedOn {
+						if usedOn.XMLName.Space != attr.LINK {
+							continue
+						}
+						newRoleType.UsedOn = append(newRoleType.UsedOn, struct{ CharData string }{
+							CharData: usedOn.CharData,
+						})
+					}
+				}
+				roleTypes = append(roleTypes, newRoleType)
 			}
 		}
-		roleTypes = append(roleTypes, newRoleType)
 	}
 	return Annotation{
 		Appinfo: Appinfo{
-- 
2.43.0


From 4f1195c0c65cf47542572867f92238bbba86047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:09 +0000
Subject: [PATCH 14/26] fix: find concepts in every schema of their namespace

A namespace was tied to the schema that happened to be read last. When several
schemas of a folder share a namespace, facts of the other schemas were dropped, and
which facts were dropped changed from one opening to the next.
---
 pkg/hydratables/query.go    | 14 ++++++++++++++
 pkg/serializables/folder.go | 21 ++++++++++++---------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/pkg/hydratables/query.go b/pkg/hydratables/query.go
index 4304545..d1ff3ff 100644
--- a/pkg/hydratables/query.go
+++ b/pkg/hydratables/query.go
@@ -2,6 +2,7 @@ package hydratables
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"ecksbee.com/telefacts/pkg/attr"
@@ -75,6 +76,19 @@ func (h *Hydratable) NameQuery(namespace string, localName string) (string, *Con
 			return schemaLoc + "#" + candidate.ID, &candidate, nil
 		}
 	}
+	// other schemas of the folder may share the namespace
+	filenames := make([]string, 0, len(h.Schemas))
+	for filename := range h.Schemas {
+		filenames = append(filenames, filename)
+	}
+	sort.Strings(filenames)
+	for _, filename := range filenames {
+		for _, candidate := range h.Schemas[filename].Element {
+			if localName == candidate.XMLName.Local && namespace == candidate.XMLName.Space {
+				return filename + "#" + candidate.ID, &candidate, nil
+			}
+		}
+	}
 	return "", nil, nil
 }
 
diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index 3890890..c1b8135 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -125,9 +125,7 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 			if targetNS == nil || targetNS.Value == "" {
 				return
 			}
-			folder.wLock.Lock()
-			folder.Namespaces[targetNS.Value] = hrefAttr.Value
-			folder.wLock.Unlock()
+			folder.declare(targetNS.Value, hrefAttr.Value)
 			if !folder.visit(hrefAttr.Value) {
 				return
 			}
@@ -165,6 +163,15 @@ func (folder *Folder) visit(location string) bool {
 	return true
 }
 
+// declare records a location of a namespace. Of several locations it keeps the first in order.
+func (folder *Folder) declare(namespace string, location string) {
+	folder.wLock.Lock()
+	defer folder.wLock.Unlock()
+	if declared, found := folder.Namespaces[namespace]; !found || location < declared {
+		folder.Namespaces[namespace] = location
+	}
+}
+
 func (folder *Folder) includeSchema(file *SchemaFile) {
 	if file == nil {
 		return
@@ -198,9 +205,7 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 			if targetNS == nil || targetNS.Value == "" {
 				return
 			}
-			folder.wLock.Lock()
-			folder.Namespaces[targetNS.Value] = schemaLocationAttr.Value
-			folder.wLock.Unlock()
+			folder.declare(targetNS.Value, schemaLocationAttr.Value)
 			if !folder.visit(schemaLocationAttr.Value) {
 				return
 			}
@@ -251,9 +256,7 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 			if schemaLocationAttr == nil || schemaLocationAttr.Value == "" {
 				return
 			}
-			folder.wLock.Lock()
-			folder.Namespaces[namespaceAttr.Value] = schemaLocationAttr.Value
-			folder.wLock.Unlock()
+			folder.declare(namespaceAttr.Value, schemaLocationAttr.Value)
 			if attr.IsValidUrl(schemaLocationAttr.Value) {
 				go DiscoverGlobalSchema(schemaLocationAttr.Value)
 				return
-- 
2.43.0


From a662b196229a7abc8182de92b60f7ae7c7e6715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:17 +0000
Subject: [PATCH 15/26] fix: report global files that cannot be read

A shadowed variable dropped the error, so a file that is missing or unreadable was
taken for an empty one.
---
 pkg/serializables/global.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/pkg/serializables/global.go b/pkg/serializables/global.go
index 0402818..8c3abb6 100644
--- a/pkg/serializables/global.go
+++ b/pkg/serializables/global.go
@@ -50,17 +50,7 @@ func DiscoverGlobalFile(urlStr string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	var ret []byte
-	if file, err := os.Stat(dest); err == nil {
-		dirString, _ := filepath.Split(dest)
-		filename := file.Name()
-		globalFilePath := filepath.Join(dirString, filename)
-		ret, err = os.ReadFile(globalFilePath)
-		if err == nil {
-			return ret, nil
-		}
-	}
-	return nil, err
+	return os.ReadFile(dest)
 }
 
 func DiscoverGlobalSchema(urlStr string) (*SchemaFile, error) {
-- 
2.43.0


From 5712d22db189c84d636ced26352397e0547e2bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:57 +0000
Subject: [PATCH 16/26] fix: do not open a folder without the files that cannot
 be read

A schema, linkbase or image that is there but cannot be read at the moment was
skipped like one that is missing. The folder was then opened without it, and the
answers made from it were cached. Opening the folder fails now, so that a later
request can succeed.
---
 pkg/serializables/folder.go | 42 ++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index c1b8135..a10b684 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -17,6 +17,7 @@ import (
 type Folder struct {
 	wLock                 sync.Mutex
 	visited               map[string]bool
+	readErr               error
 	EntryFileName         string
 	Dir                   string
 	Document              *Document
@@ -49,7 +50,9 @@ func Discover(id string) (*Folder, error) {
 		CalculationLinkbases:  make(map[string]CalculationLinkbaseFile),
 		Images:                make(map[string]string),
 	}
-	ret.processImages(workingDir)
+	if err := ret.processImages(workingDir); err != nil {
+		return nil, err
+	}
 	ext := filepath.Ext(entryFileName)
 	switch ext {
 	case ".xhtml", ".htm":
@@ -77,6 +80,9 @@ func Discover(id string) (*Folder, error) {
 		ret.schemaRef(instanceFile)
 		ret.wLock.Lock()
 		defer ret.wLock.Unlock()
+		if ret.readErr != nil {
+			return nil, ret.readErr
+		}
 		ret.Instances[entryFileName+".xml"] = *instanceFile
 	case ".xbrl", ".xml":
 		xmlFilePath := filepath.Join(workingDir, entryFileName)
@@ -87,6 +93,9 @@ func Discover(id string) (*Folder, error) {
 		ret.schemaRef(instanceFile)
 		ret.wLock.Lock()
 		defer ret.wLock.Unlock()
+		if ret.readErr != nil {
+			return nil, ret.readErr
+		}
 		ret.Instances[entryFileName] = *instanceFile
 	}
 	return ret, nil
@@ -119,6 +128,7 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 			schemaFilePath := filepath.Join(folder.Dir, hrefAttr.Value)
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
+				folder.fail(err)
 				return
 			}
 			targetNS := attr.FindAttr(discoveredSchema.XMLAttrs, "targetNamespace")
@@ -172,6 +182,22 @@ func (folder *Folder) declare(namespace string, location string) {
 	}
 }
 
+// IsUnreadable reports whether a file could not be read although it exists.
+func IsUnreadable(err error) bool {
+	var pathErr *os.PathError
+	return errors.As(err, &pathErr) && !errors.Is(err, os.ErrNotExist)
+}
+
+// fail records that a referenced file could not be read. Missing and malformed files are skipped.
+func (folder *Folder) fail(err error) {
+	if !IsUnreadable(err) {
+		return
+	}
+	folder.wLock.Lock()
+	defer folder.wLock.Unlock()
+	folder.readErr = err
+}
+
 func (folder *Folder) includeSchema(file *SchemaFile) {
 	if file == nil {
 		return
@@ -199,6 +225,7 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 			schemaFilePath := filepath.Join(folder.Dir, schemaLocationAttr.Value)
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
+				folder.fail(err)
 				return
 			}
 			targetNS := attr.FindAttr(discoveredSchema.XMLAttrs, "targetNamespace")
@@ -264,6 +291,7 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 			schemaFilePath := filepath.Join(folder.Dir, schemaLocationAttr.Value)
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
+				folder.fail(err)
 				return
 			}
 			if !folder.visit(schemaLocationAttr.Value) {
@@ -340,6 +368,7 @@ func (folder *Folder) linkbaseRefSchema(file *SchemaFile) {
 					case attr.PresentationLinkbaseRef:
 						discoveredPre, err := ReadPresentationLinkbaseFile(linkbaseFilePath)
 						if err != nil {
+							folder.fail(err)
 							return
 						}
 						folder.wLock.Lock()
@@ -349,6 +378,7 @@ func (folder *Folder) linkbaseRefSchema(file *SchemaFile) {
 					case attr.DefinitionLinkbaseRef:
 						discoveredDef, err := ReadDefinitionLinkbaseFile(linkbaseFilePath)
 						if err != nil {
+							folder.fail(err)
 							return
 						}
 						folder.wLock.Lock()
@@ -358,6 +388,7 @@ func (folder *Folder) linkbaseRefSchema(file *SchemaFile) {
 					case attr.CalculationLinkbaseRef:
 						discoveredCal, err := ReadCalculationLinkbaseFile(linkbaseFilePath)
 						if err != nil {
+							folder.fail(err)
 							return
 						}
 						folder.wLock.Lock()
@@ -367,6 +398,7 @@ func (folder *Folder) linkbaseRefSchema(file *SchemaFile) {
 					case attr.LabelLinkbaseRef:
 						discoveredLab, err := ReadLabelLinkbaseFile(linkbaseFilePath)
 						if err != nil {
+							folder.fail(err)
 							return
 						}
 						folder.wLock.Lock()
@@ -383,10 +415,10 @@ func (folder *Folder) linkbaseRefSchema(file *SchemaFile) {
 	wg.Wait()
 }
 
-func (folder *Folder) processImages(workingDir string) {
+func (folder *Folder) processImages(workingDir string) error {
 	files, err := os.ReadDir(workingDir)
 	if err != nil {
-		return
+		return err
 	}
 
 	for _, file := range files {
@@ -396,6 +428,9 @@ func (folder *Folder) processImages(workingDir string) {
 
 		bytes, err := os.ReadFile(path.Join(workingDir, file.Name()))
 		if err != nil {
+			if IsUnreadable(err) {
+				return err
+			}
 			continue
 		}
 
@@ -413,4 +448,5 @@ func (folder *Folder) processImages(workingDir string) {
 		base64Encoding += base64.StdEncoding.EncodeToString(bytes)
 		folder.Images[file.Name()] = base64Encoding
 	}
+	return nil
 }
-- 
2.43.0


From 0075ba1d8798f9ebe3127275ea1f8ef224d3c08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:05 +0000
Subject: [PATCH 17/26] fix: do not answer without the global schemas that
 cannot be read

A global schema or the unit registry that cannot be read at the moment made facts
and units disappear from the answers, and these answers were cached. The schemas
are now looked up once when a folder is hydrated, and the request fails if one of
them cannot be read.
---
 pkg/hydratables/hydratable.go      | 15 +++++++++++++++
 pkg/hydratables/measurement.go     | 14 +++++---------
 pkg/hydratables/query.go           | 11 +++++++++--
 pkg/renderables/calculationGrid.go | 18 ++++++++++++++----
 4 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/pkg/hydratables/hydratable.go b/pkg/hydratables/hydratable.go
index a8672a0..532a7c7 100644
--- a/pkg/hydratables/hydratable.go
+++ b/pkg/hydratables/hydratable.go
@@ -1,6 +1,7 @@
 package hydratables
 
 import (
+	"ecksbee.com/telefacts/pkg/attr"
 	"ecksbee.com/telefacts/pkg/serializables"
 )
 
@@ -14,6 +15,7 @@ type Hydratable struct {
 	PresentationLinkbases map[string]PresentationLinkbase
 	DefinitionLinkbases   map[string]DefinitionLinkbase
 	CalculationLinkbases  map[string]CalculationLinkbase
+	globalSchemas         map[string]*Schema
 }
 
 func Hydrate(folder *serializables.Folder) (*Hydratable, error) {
@@ -25,6 +27,19 @@ func Hydrate(folder *serializables.Folder) (*Hydratable, error) {
 		PresentationLinkbases: make(map[string]PresentationLinkbase),
 		DefinitionLinkbases:   make(map[string]DefinitionLinkbase),
 		CalculationLinkbases:  make(map[string]CalculationLinkbase),
+		globalSchemas:         make(map[string]*Schema),
+	}
+	for _, location := range folder.Namespaces {
+		if !attr.IsValidUrl(location) {
+			continue
+		}
+		schema, err := HydrateGlobalSchema(location)
+		if serializables.IsUnreadable(err) {
+			return nil, err
+		}
+		if err == nil {
+			ret.globalSchemas[location] = schema
+		}
 	}
 	for filename, file := range folder.Schemas {
 		entry, err := HydrateSchema(&file, filename)
diff --git a/pkg/hydratables/measurement.go b/pkg/hydratables/measurement.go
index 29a2838..63ef4d1 100644
--- a/pkg/hydratables/measurement.go
+++ b/pkg/hydratables/measurement.go
@@ -146,12 +146,8 @@ func mapMeasurements(file *serializables.UnitTypeRegistryFile) UnitTypeRegistry
 	return ret
 }
 
-func queryUTR(namespace string, id string) *Measurement {
-	utr, err := HydrateUnitTypeRegistry()
-	if err != nil {
-		return nil
-	}
-	if units, found := (*utr)[namespace]; found {
+func (h *Hydratable) queryUTR(namespace string, id string) *Measurement {
+	if units, found := h.UnitTypeRegistry[namespace]; found {
 		if unit, ffound := units[id]; ffound {
 			return &unit
 		}
@@ -168,12 +164,12 @@ func (h *Hydratable) FindMeasurement(unitRef string) (*Measurement, *Measurement
 						unit.Divide.UnitDenominator.Measure.CharData == "" {
 						return nil, nil
 					}
-					return queryUTR(unit.Divide.UnitNumerator.Measure.XMLName.Space,
+					return h.queryUTR(unit.Divide.UnitNumerator.Measure.XMLName.Space,
 							unit.Divide.UnitNumerator.Measure.XMLName.Local),
-						queryUTR(unit.Divide.UnitDenominator.Measure.XMLName.Space,
+						h.queryUTR(unit.Divide.UnitDenominator.Measure.XMLName.Space,
 							unit.Divide.UnitNumerator.Measure.XMLName.Local)
 				}
-				return queryUTR(unit.Measure.XMLName.Space, unit.Measure.XMLName.Local), nil
+				return h.queryUTR(unit.Measure.XMLName.Space, unit.Measure.XMLName.Local), nil
 			}
 		}
 	}
diff --git a/pkg/hydratables/query.go b/pkg/hydratables/query.go
index d1ff3ff..cf1f69b 100644
--- a/pkg/hydratables/query.go
+++ b/pkg/hydratables/query.go
@@ -29,7 +29,7 @@ func (h *Hydratable) HashQuery(query string) (string, *Concept, error) {
 		}
 	}
 	if attr.IsValidUrl(base) {
-		schema, err := HydrateGlobalSchema(base)
+		schema, err := h.globalSchema(base)
 		if err != nil {
 			return namespace, nil, err
 		}
@@ -58,7 +58,7 @@ func (h *Hydratable) NameQuery(namespace string, localName string) (string, *Con
 		return "", nil, fmt.Errorf("%s is not scoped into the folder", namespace)
 	}
 	if attr.IsValidUrl(schemaLoc) {
-		schema, err := HydrateGlobalSchema(schemaLoc)
+		schema, err := h.globalSchema(schemaLoc)
 		if err != nil {
 			return "", nil, err
 		}
@@ -92,6 +92,13 @@ func (h *Hydratable) NameQuery(namespace string, localName string) (string, *Con
 	return "", nil, nil
 }
 
+func (h *Hydratable) globalSchema(urlStr string) (*Schema, error) {
+	if schema, found := h.globalSchemas[urlStr]; found {
+		return schema, nil
+	}
+	return HydrateGlobalSchema(urlStr)
+}
+
 func EntityQuery(scheme string, chardata string) (string, error) {
 	names, err := HydrateEntityNames()
 	if err != nil {
diff --git a/pkg/renderables/calculationGrid.go b/pkg/renderables/calculationGrid.go
index 1642afb..1153e71 100644
--- a/pkg/renderables/calculationGrid.go
+++ b/pkg/renderables/calculationGrid.go
@@ -7,6 +7,7 @@ import (
 
 	"ecksbee.com/telefacts/pkg/attr"
 	"ecksbee.com/telefacts/pkg/hydratables"
+	"ecksbee.com/telefacts/pkg/serializables"
 )
 
 type SummationItem struct {
@@ -37,15 +38,18 @@ type CGrid struct {
 
 func cGrid(schemedEntity string, linkroleURI string, h *hydratables.Hydratable,
 	factFinder FactFinder, conceptFinder ConceptFinder, measurementFinder MeasurementFinder) (CGrid, []LabelRole, []Lang, error) {
-	summationItems, labelRoles, langs := getSummationItems(schemedEntity, linkroleURI,
+	summationItems, labelRoles, langs, err := getSummationItems(schemedEntity, linkroleURI,
 		h, factFinder, conceptFinder, measurementFinder)
+	if err != nil {
+		return CGrid{}, nil, nil, err
+	}
 	return CGrid{
 		SummationItems: summationItems,
 	}, labelRoles, langs, nil
 }
 
 func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.Hydratable,
-	factFinder FactFinder, conceptFinder ConceptFinder, measurementFinder MeasurementFinder) ([]SummationItem, []LabelRole, []Lang) {
+	factFinder FactFinder, conceptFinder ConceptFinder, measurementFinder MeasurementFinder) ([]SummationItem, []LabelRole, []Lang, error) {
 	for _, filename := range sortedKeys(h.CalculationLinkbases) {
 		calculation := h.CalculationLinkbases[filename]
 		var calculationLinks []hydratables.CalculationLink
@@ -105,6 +109,9 @@ func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.
 						scale := fmt.Sprintf("%.1f", cstruct.Scale)
 						cLabelPack := GetLabel(h, cstruct.Href)
 						_, concept, err := h.HashQuery(cstruct.Href)
+						if serializables.IsUnreadable(err) {
+							return nil, nil, nil, err
+						}
 						if err != nil {
 							continue
 						}
@@ -130,6 +137,9 @@ func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.
 					}
 					factualQuadrant, footnoteGrid, footnotes := getFactualQuadrant(fqLabels, relevantContexts, factFinder, conceptFinder, measurementFinder, langs)
 					_, sumConcept, err := h.HashQuery(from)
+					if serializables.IsUnreadable(err) {
+						return nil, nil, nil, err
+					}
 					if err != nil {
 						continue
 					}
@@ -150,9 +160,9 @@ func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.
 				sort.SliceStable(ret, func(i, j int) bool {
 					return getPureLabel(ret[i].Label) < getPureLabel(ret[j].Label)
 				})
-				return ret, labelRoles, langs
+				return ret, labelRoles, langs, nil
 			}
 		}
 	}
-	return nil, nil, nil
+	return nil, nil, nil, nil
 }
-- 
2.43.0


From cfb28a4a891702d240b8caa7d0710247f0876c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:08 +0000
Subject: [PATCH 18/26] fix: create a folder completely or not at all

Errors of opening and closing the metadata file were ignored, and a failure or a
crash after the directory was made left a folder without metadata. That folder
could never be created again, because its key was reported as taken. A second
caller with the same key could also be told that the folder exists before its
metadata was written.
---
 pkg/serializables/underscore.go | 39 +++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/pkg/serializables/underscore.go b/pkg/serializables/underscore.go
index 86e0d8c..e7f2112 100644
--- a/pkg/serializables/underscore.go
+++ b/pkg/serializables/underscore.go
@@ -2,6 +2,7 @@ package serializables
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"os"
 	"path"
@@ -38,29 +39,33 @@ func NewFolder(key string, underscore Underscore) (string, error) {
 		return uuid.NewMD5(NilUuid, bytes)
 	}
 	workingDir := filepath.Join(WorkingDirectoryPath, "folders")
+	// the folder is completed under another name, so that nobody finds it incomplete
+	temp, err := os.MkdirTemp(workingDir, ".new-*")
+	if err != nil {
+		return "", err
+	}
+	defer os.RemoveAll(temp)
+	err = os.Chmod(temp, 0755)
+	if err != nil {
+		return "", err
+	}
+	meta, err := json.Marshal(underscore)
+	if err != nil {
+		return "", err
+	}
+	err = os.WriteFile(filepath.Join(temp, "_"), meta, 0755)
+	if err != nil {
+		return "", err
+	}
 	id := telefactsId()
-	pathStr := filepath.Join(workingDir, id.String())
-	_, err := os.Stat(pathStr)
-	for err == nil {
+	err = os.Rename(temp, filepath.Join(workingDir, id.String()))
+	for errors.Is(err, os.ErrExist) {
 		if key != "" {
 			return id.String(), os.ErrExist
 		}
 		id = telefactsId()
-		pathStr = filepath.Join(workingDir, id.String())
-		_, err = os.Stat(pathStr)
-	}
-	err = os.Mkdir(pathStr, 0755)
-	if err != nil {
-		if _, errr := os.Stat(pathStr); errr == nil {
-			return id.String(), err
-		}
-		return "", err
+		err = os.Rename(temp, filepath.Join(workingDir, id.String()))
 	}
-	meta := filepath.Join(pathStr, "_")
-	file, _ := os.OpenFile(meta, os.O_CREATE|os.O_WRONLY, 0755)
-	defer file.Close()
-	encoder := json.NewEncoder(file)
-	err = encoder.Encode(underscore)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 9634aaf5f75ef968bfcb928100a28cf1e2f159e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:17 +0000
Subject: [PATCH 19/26] fix: listen for interrupts before serving requests

The server accepted requests before it listened for interrupts. An interrupt in
between ended the process at once and dropped the requests in flight.
---
 cmd/telefacts/main.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cmd/telefacts/main.go b/cmd/telefacts/main.go
index 1063a05..b2cdd4c 100644
--- a/cmd/telefacts/main.go
+++ b/cmd/telefacts/main.go
@@ -19,16 +19,20 @@ import (
 
 func main() {
 	var ctx = context.Background()
+	var wait time.Duration
+	flag.DurationVar(&wait, "graceful-timeout", time.Second*15, "the duration for which the server gracefully wait for existing connections to finish - e.g. 15s or 1m")
+	flag.Parse()
+	c := make(chan os.Signal, 1)
+	// We'll accept graceful shutdowns when quit via SIGINT (Ctrl+C)
+	// SIGKILL, SIGQUIT or SIGTERM (Ctrl+/) will not be caught.
+	signal.Notify(c, os.Interrupt)
 	srv := setupServer()
 	go func() {
 		if err := srv.ListenAndServe(); err != nil {
 			log.Println(err)
 		}
 	}()
-	var wait time.Duration
-	flag.DurationVar(&wait, "graceful-timeout", time.Second*15, "the duration for which the server gracefully wait for existing connections to finish - e.g. 15s or 1m")
-	flag.Parse()
-	listenForShutdown(ctx, wait, srv)
+	listenForShutdown(ctx, wait, srv, c)
 }
 
 func setupServer() *http.Server {
@@ -63,11 +67,7 @@ func setupServer() *http.Server {
 	}
 }
 
-func listenForShutdown(ctx context.Context, grace time.Duration, srv *http.Server) {
-	c := make(chan os.Signal, 1)
-	// We'll accept graceful shutdowns when quit via SIGINT (Ctrl+C)
-	// SIGKILL, SIGQUIT or SIGTERM (Ctrl+/) will not be caught.
-	signal.Notify(c, os.Interrupt)
+func listenForShutdown(ctx context.Context, grace time.Duration, srv *http.Server, c <-chan os.Signal) {
 	<-c
 	log.Println("Shutting down")
 	ctx, cancel := context.WithTimeout(ctx, grace)
-- 
2.43.0


From 8eda7079b634d1118d4bf4e6ada39a9f2a8aa54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:13 +0000
Subject: [PATCH 20/26] fix: do not keep answers made without the name list

When the list of entity names cannot be read, entities are shown with their
identifiers. These answers were cached, so the names stayed away after the list
could be read again.
---
 pkg/cache/cache.go        | 6 ++++--
 pkg/hydratables/global.go | 8 +++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/cache/cache.go b/pkg/cache/cache.go
index 824adf5..a797d56 100644
--- a/pkg/cache/cache.go
+++ b/pkg/cache/cache.go
@@ -94,12 +94,13 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 			return data, nil
 		}
 	}
+	_, namesErr := hydratables.HydrateEntityNames()
 	byteArr, err := renderables.MarshalRenderable(hash, h)
 	if err != nil {
 		return nil, err
 	}
 	go func() {
-		if dry {
+		if dry || serializables.IsUnreadable(namesErr) {
 			return
 		}
 		lock.Lock()
@@ -123,12 +124,13 @@ func MarshalCatalog(id string) ([]byte, error) {
 		}
 	}
 	lock.RUnlock()
+	_, namesErr := hydratables.HydrateEntityNames()
 	byteArr, err := renderables.MarshalCatalog(h)
 	if err != nil {
 		return nil, err
 	}
 	go func() {
-		if dry {
+		if dry || serializables.IsUnreadable(namesErr) {
 			return
 		}
 		lock.Lock()
diff --git a/pkg/hydratables/global.go b/pkg/hydratables/global.go
index 9b89972..a94a367 100644
--- a/pkg/hydratables/global.go
+++ b/pkg/hydratables/global.go
@@ -66,10 +66,8 @@ func HydrateEntityNames() (map[string]map[string]string, error) {
 	if err != nil {
 		return names, err
 	}
-	go func() {
-		lock.Lock()
-		defer lock.Unlock()
-		globalCache.Set(key, names, gocache.DefaultExpiration)
-	}()
+	lock.Lock()
+	defer lock.Unlock()
+	globalCache.Set(key, names, gocache.DefaultExpiration)
 	return names, err
 }
-- 
2.43.0


From fbad1da99b516d0a7a9a7bf57cce53eb6ec2be21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:24 +0000
Subject: [PATCH 21/26] fix: keep references inside the filing and the shared
 taxonomy

A reference with parent directory segments in a filing, or in its list of
metadata, made the server read files anywhere on the disk.  Resolve such
names inside the folder, and taxonomy addresses inside the taxonomy
directory.
---
 pkg/serializables/folder.go | 19 ++++++++++++-------
 pkg/serializables/global.go |  1 +
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index a10b684..79cc0b1 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -56,7 +56,7 @@ func Discover(id string) (*Folder, error) {
 	ext := filepath.Ext(entryFileName)
 	switch ext {
 	case ".xhtml", ".htm":
-		htmFilePath := filepath.Join(workingDir, entryFileName)
+		htmFilePath := ret.within(entryFileName)
 		data, err := os.ReadFile(htmFilePath)
 		if err != nil {
 			return nil, err
@@ -69,7 +69,7 @@ func Discover(id string) (*Folder, error) {
 			doc.Bytes = TransformInlineImages(data, ret.Images)
 		}
 		ret.Document = doc
-		extracted := filepath.Join(workingDir, entryFileName+".xml")
+		extracted := ret.within(entryFileName + ".xml")
 		if _, err := os.Stat(extracted); errors.Is(err, os.ErrNotExist) {
 			return nil, fmt.Errorf("%s does not exists", extracted)
 		}
@@ -85,7 +85,7 @@ func Discover(id string) (*Folder, error) {
 		}
 		ret.Instances[entryFileName+".xml"] = *instanceFile
 	case ".xbrl", ".xml":
-		xmlFilePath := filepath.Join(workingDir, entryFileName)
+		xmlFilePath := ret.within(entryFileName)
 		instanceFile, err := ReadInstanceFile(xmlFilePath)
 		if err != nil {
 			return nil, err
@@ -101,6 +101,11 @@ func Discover(id string) (*Folder, error) {
 	return ret, nil
 }
 
+// within returns the path of a referenced file, which is always inside the folder
+func (folder *Folder) within(name string) string {
+	return filepath.Join(folder.Dir, filepath.Join(string(filepath.Separator), name))
+}
+
 func (folder *Folder) schemaRef(file *InstanceFile) {
 	if file == nil {
 		return
@@ -125,7 +130,7 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 				go DiscoverGlobalSchema(hrefAttr.Value)
 				return
 			}
-			schemaFilePath := filepath.Join(folder.Dir, hrefAttr.Value)
+			schemaFilePath := folder.within(hrefAttr.Value)
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
 				folder.fail(err)
@@ -222,7 +227,7 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 				go DiscoverGlobalSchema(schemaLocationAttr.Value)
 				return
 			}
-			schemaFilePath := filepath.Join(folder.Dir, schemaLocationAttr.Value)
+			schemaFilePath := folder.within(schemaLocationAttr.Value)
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
 				folder.fail(err)
@@ -288,7 +293,7 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 				go DiscoverGlobalSchema(schemaLocationAttr.Value)
 				return
 			}
-			schemaFilePath := filepath.Join(folder.Dir, schemaLocationAttr.Value)
+			schemaFilePath := folder.within(schemaLocationAttr.Value)
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
 				folder.fail(err)
@@ -363,7 +368,7 @@ func (folder *Folder) linkbaseRefSchema(file *SchemaFile) {
 						go DiscoverGlobalFile(hrefAttr.Value)
 						return
 					}
-					linkbaseFilePath := filepath.Join(folder.Dir, hrefAttr.Value)
+					linkbaseFilePath := folder.within(hrefAttr.Value)
 					switch roleAttr.Value {
 					case attr.PresentationLinkbaseRef:
 						discoveredPre, err := ReadPresentationLinkbaseFile(linkbaseFilePath)
diff --git a/pkg/serializables/global.go b/pkg/serializables/global.go
index 8c3abb6..8979fa2 100644
--- a/pkg/serializables/global.go
+++ b/pkg/serializables/global.go
@@ -42,6 +42,7 @@ func UrlToFilename(urlStr string) (string, error) {
 	for _, split := range splits {
 		dest = filepath.Join(dest, split)
 	}
+	dest = filepath.Join(string(filepath.Separator), dest)
 	return filepath.Join(GlobalTaxonomySetPath, "concepts", dest), nil
 }
 
-- 
2.43.0


From 2ab0709b7b08e722b10590aaae6d9e990512f383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:32 +0000
Subject: [PATCH 22/26] fix: do not remember lookups of facts which do not
 exist

Every lookup of an unknown name or context was kept in memory for as long as
the process ran, so that requests for random names used up the memory.
---
 pkg/cache/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/cache/cache.go b/pkg/cache/cache.go
index a797d56..fafd11c 100644
--- a/pkg/cache/cache.go
+++ b/pkg/cache/cache.go
@@ -54,7 +54,7 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 		return nil, err
 	}
 	go func() {
-		if dry {
+		if dry || byteArr == nil {
 			return
 		}
 		lock.Lock()
-- 
2.43.0


From 1c088dad2dd160dfacabf7c1206ae5609acbb296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:05 +0000
Subject: [PATCH 23/26] fix: limit how wide a table cell of a text block can be

A cell is written once for every column it spans. A filing with a huge
colspan kept a request busy until the process ran out of memory. The
HTML standard limits colspan to 1000.
---
 pkg/renderables/textBlock.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/renderables/textBlock.go b/pkg/renderables/textBlock.go
index 5fac5fe..cf080a6 100644
--- a/pkg/renderables/textBlock.go
+++ b/pkg/renderables/textBlock.go
@@ -21,11 +21,17 @@ func findHtmlAttr(attrs []html.Attribute, attr string) *html.Attribute {
 	return nil
 }
 
+// maxColSpan is the limit set by the HTML standard
+const maxColSpan = 1000
+
 func colSpanHelper(attrs []html.Attribute, cb func(int)) {
 	a := findHtmlAttr(attrs, "colspan")
 	if a != nil {
 		colspan, err := strconv.Atoi(a.Val)
 		if err == nil {
+			if colspan > maxColSpan {
+				colspan = maxColSpan
+			}
 			for i := 0; i < colspan-1; i++ {
 				cb(colspan)
 			}
-- 
2.43.0


From 0dbef9440ae3118a2e505702307b1ead6cae64a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:05 +0000
Subject: [PATCH 24/26] fix: show numbers with excessive exponents as reported

Writing out a value such as 1e-999999 digit by digit takes minutes.
One such fact kept every request for its filing from being answered.
---
 pkg/renderables/fact.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pkg/renderables/fact.go b/pkg/renderables/fact.go
index 920bb57..3d6102b 100644
--- a/pkg/renderables/fact.go
+++ b/pkg/renderables/fact.go
@@ -60,8 +60,23 @@ func SigFigs(value string, precision hydratables.Precision, concept *hydratables
 	return renderNumeric(value, precision, g)
 }
 
-func renderPercent(value string, precision hydratables.Precision, g rune) (*FactExpression, error) {
+// parseNumeric refuses exponents which would take excessive effort to write out
+func parseNumeric(value string) (*big.Float, error) {
+	const maxExponent = 1024
 	f, _, err := big.ParseFloat(value, 10, digits.PREC_BITS, big.ToZero)
+	if err != nil {
+		return nil, err
+	}
+	exp := f.MantExp(nil)
+	limit := maxExponent + 4*len(value)
+	if f.IsInf() || exp > limit || exp < -limit {
+		return nil, fmt.Errorf("number is out of bounds")
+	}
+	return f, nil
+}
+
+func renderPercent(value string, precision hydratables.Precision, g rune) (*FactExpression, error) {
+	f, err := parseNumeric(value)
 	if err != nil {
 		return nil, fmt.Errorf("failed to convert fact to numeric expression")
 	}
@@ -70,6 +85,9 @@ func renderPercent(value string, precision hydratables.Precision, g rune) (*Fact
 }
 
 func renderNumeric(value string, precision hydratables.Precision, g rune) (*FactExpression, error) {
+	if _, err := parseNumeric(value); err != nil {
+		return nil, fmt.Errorf("failed to convert fact to numeric expression")
+	}
 	p := digits.Precision(int(precision))
 	digit, err := digits.New(p, value, g, digits.PreserveUpToHundredth)
 	if err != nil {
-- 
2.43.0


From 14da43a608c692c6219dd26377128e400c83d3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:28 +0000
Subject: [PATCH 25/26] fix: find footnotes by the label their arcs point to

The arcs of a footnote link name resources and locators by their label.
Footnotes were looked up as if their id were the same as their label,
so footnotes with another id were left out. Only the first of several
locators with the same label was considered as well.
---
 pkg/hydratables/fact.go | 70 ++++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 29 deletions(-)

diff --git a/pkg/hydratables/fact.go b/pkg/hydratables/fact.go
index 32c1f24..c9a3502 100644
--- a/pkg/hydratables/fact.go
+++ b/pkg/hydratables/fact.go
@@ -53,31 +53,11 @@ func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
 			fnoteArcs := fnoteArcs(arcs)
 			root := graph.Tree(fnoteArcs, attr.FactFootnoteArcrole)
 			for _, child := range root.Children {
-				href := mapFnoteLocatorToHref(&footnoteLink, child.Locator)
-				locatedID := href
-				pos := strings.LastIndex(href, "#")
-				if pos > -1 {
-					adjustedPos := pos + 1
-					if adjustedPos < len(href) {
-						locatedID = href[adjustedPos:]
-					}
+				if !locatesFact(&footnoteLink, child.Locator, fact.ID) {
+					continue
 				}
-				if locatedID == fact.ID {
-					for _, grandchild := range child.Children {
-						footnoteHref := mapFnoteLocatorToHref(&footnoteLink, grandchild.Locator)
-						locatedFnoteID := footnoteHref
-						pos := strings.LastIndex(footnoteHref, "#")
-						if pos > -1 {
-							adjustedPos := pos + 1
-							if adjustedPos < len(footnoteHref) {
-								locatedFnoteID = footnoteHref[adjustedPos:]
-							}
-						}
-						locatedFootnote := h.FindFootnote(locatedFnoteID)
-						if locatedFootnote != nil {
-							ret = append(ret, locatedFootnote)
-						}
-					}
+				for _, grandchild := range child.Children {
+					ret = append(ret, h.locateFootnotes(&footnoteLink, grandchild.Locator)...)
 				}
 			}
 		}
@@ -85,16 +65,48 @@ func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
 	return ret
 }
 
-func mapFnoteLocatorToHref(footnoteLink *FootnoteLink, locator string) string {
+func locatedIDs(footnoteLink *FootnoteLink, locator string) []string {
+	ret := make([]string, 0)
 	for _, loc := range footnoteLink.Locs {
 		if loc.Label == locator {
-			i := strings.Index(loc.Href, "#")
-			if i >= 0 {
-				return loc.Href
+			i := strings.LastIndex(loc.Href, "#")
+			if i >= 0 && i+1 < len(loc.Href) {
+				ret = append(ret, loc.Href[i+1:])
 			}
 		}
 	}
-	return "#" + locator
+	if len(ret) <= 0 {
+		ret = append(ret, locator)
+	}
+	return ret
+}
+
+func locatesFact(footnoteLink *FootnoteLink, locator string, factID string) bool {
+	for _, locatedID := range locatedIDs(footnoteLink, locator) {
+		if locatedID == factID {
+			return true
+		}
+	}
+	return false
+}
+
+func (h *Hydratable) locateFootnotes(footnoteLink *FootnoteLink, locator string) []*Footnote {
+	ret := make([]*Footnote, 0)
+	for i := range footnoteLink.Footnotes {
+		if footnoteLink.Footnotes[i].Label == locator {
+			ret = append(ret, &footnoteLink.Footnotes[i])
+		}
+	}
+	if len(ret) > 0 {
+		return ret
+	}
+	for _, locatedID := range locatedIDs(footnoteLink, locator) {
+		locatedFootnote := h.FindFootnote(locatedID)
+		if locatedFootnote != nil {
+			ret = append(ret, locatedFootnote)
+		}
+	}
+	return ret
 }
 
 func (h *Hydratable) FindFootnote(id string) *Footnote {
-- 
2.43.0


From bafbf3af52f1516a7dc66899cc6a24adb7fcc26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:24:27 +0000
Subject: [PATCH 26/26] fix: read all shared schemas of a filing when it is
 opened

A shared schema that only a locator of a linkbase named was read by the
first request for a network, not when the filing was opened. Such a
request waited for storage, and left out concepts of the schema when the
file had gone in the meantime.
---
 pkg/hydratables/hydratable.go | 60 ++++++++++++++++++++++++++++++-----
 pkg/hydratables/query.go      |  4 +--
 2 files changed, 54 insertions(+), 10 deletions(-)

diff --git a/pkg/hydratables/hydratable.go b/pkg/hydratables/hydratable.go
index 532a7c7..c8f4539 100644
--- a/pkg/hydratables/hydratable.go
+++ b/pkg/hydratables/hydratable.go
@@ -1,6 +1,8 @@
 package hydratables
 
 import (
+	"strings"
+
 	"ecksbee.com/telefacts/pkg/attr"
 	"ecksbee.com/telefacts/pkg/serializables"
 )
@@ -30,16 +32,9 @@ func Hydrate(folder *serializables.Folder) (*Hydratable, error) {
 		globalSchemas:         make(map[string]*Schema),
 	}
 	for _, location := range folder.Namespaces {
-		if !attr.IsValidUrl(location) {
-			continue
-		}
-		schema, err := HydrateGlobalSchema(location)
-		if serializables.IsUnreadable(err) {
+		if err := ret.includeGlobalSchema(location); err != nil {
 			return nil, err
 		}
-		if err == nil {
-			ret.globalSchemas[location] = schema
-		}
 	}
 	for filename, file := range folder.Schemas {
 		entry, err := HydrateSchema(&file, filename)
@@ -69,6 +64,11 @@ func Hydrate(folder *serializables.Folder) (*Hydratable, error) {
 		}
 		ret.CalculationLinkbases[filename] = *entry
 	}
+	for _, location := range ret.locatedSchemas() {
+		if err := ret.includeGlobalSchema(location); err != nil {
+			return nil, err
+		}
+	}
 	for filename, file := range folder.LabelLinkbases {
 		entry, err := HydrateLabelLinkbase(&file, filename)
 		if err != nil {
@@ -95,3 +95,47 @@ func Hydrate(folder *serializables.Folder) (*Hydratable, error) {
 	ret.Document = doc
 	return ret, nil
 }
+
+// includeGlobalSchema keeps the global schema at a location, so that no
+// request has to read it later on.
+func (h *Hydratable) includeGlobalSchema(location string) error {
+	if _, found := h.globalSchemas[location]; found || !attr.IsValidUrl(location) {
+		return nil
+	}
+	schema, err := HydrateGlobalSchema(location)
+	if serializables.IsUnreadable(err) {
+		return err
+	}
+	if err != nil {
+		schema = nil
+	}
+	h.globalSchemas[location] = schema
+	return nil
+}
+
+// locatedSchemas lists where the locators of the linkbases point to.
+func (h *Hydratable) locatedSchemas() []string {
+	var locs []Loc
+	for _, linkbase := range h.PresentationLinkbases {
+		for _, link := range linkbase.PresentationLinks {
+			locs = append(locs, link.Locs...)
+		}
+	}
+	for _, linkbase := range h.DefinitionLinkbases {
+		for _, link := range linkbase.DefinitionLinks {
+			locs = append(locs, link.Locs...)
+		}
+	}
+	for _, linkbase := range h.CalculationLinkbases {
+		for _, link := range linkbase.CalculationLinks {
+			locs = append(locs, link.Locs...)
+		}
+	}
+	ret := make([]string, 0, len(locs))
+	for _, loc := range locs {
+		if i := strings.IndexRune(loc.Href, '#'); i > 0 {
+			ret = append(ret, loc.Href[:i])
+		}
+	}
+	return ret
+}
diff --git a/pkg/hydratables/query.go b/pkg/hydratables/query.go
index cf1f69b..ca809ce 100644
--- a/pkg/hydratables/query.go
+++ b/pkg/hydratables/query.go
@@ -93,10 +93,10 @@ func (h *Hydratable) NameQuery(namespace string, localName string) (string, *Con
 }
 
 func (h *Hydratable) globalSchema(urlStr string) (*Schema, error) {
-	if schema, found := h.globalSchemas[urlStr]; found {
+	if schema := h.globalSchemas[urlStr]; schema != nil {
 		return schema, nil
 	}
-	return HydrateGlobalSchema(urlStr)
+	return nil, fmt.Errorf("global schema not found %s", urlStr)
 }
 
 func EntityQuery(scheme string, chardata string) (string, error) {
-- 
2.43.0

