From 737b360b2dc51e651d1f5ae98fb236f790b780aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:38 +0000
Subject: [PATCH 01/64] fix: RangeCtxt freed an uninitialised iterator when a
 range was never evaluated, and leaked the old one when it was evaluated again

---
 src/mws/query/SearchContext.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index eba24a9..6b86b96 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -119,19 +119,16 @@ struct RangeCtxt : public BacktrackCtxt<Accessor> {
 
     typename Accessor::Index* index;
     typename Accessor::Node* root;
-    typename Accessor::Iterator* iterator;
+    unique_ptr<typename Accessor::Iterator> iterator;
 
     typename Accessor::Node* solve(typename Accessor::Index* index,
                                    typename Accessor::Node* root) {
         this->index = index;
         this->root = root;
 
-        // XXX:
-        typename Accessor::Iterator it = Accessor::getChildrenIterator(root);
-        // malloc'ed because there is no default constructor
-        iterator = (typename Accessor::Iterator*)malloc(sizeof(it));
-        assert(iterator != nullptr);
-        *iterator = it;
+        // heap-allocated because there is no default constructor
+        iterator.reset(new typename Accessor::Iterator(
+            Accessor::getChildrenIterator(root)));
 
         encoded_token_t tok = Accessor::getToken(*iterator);
         while (!validSubst(tok) && iterator->hasNext()) {
@@ -176,8 +173,6 @@ struct RangeCtxt : public BacktrackCtxt<Accessor> {
         return node;
     }
 
-    ~RangeCtxt() { free(iterator); }
-
  private:
     bool isCmmlNumber(encoded_token_t tok) {
         if (tok.arity != 0) return false;
-- 
2.43.0


From 335c92fa5f5a31c5e6c9d04499db4bd5ab2c3ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:36 +0000
Subject: [PATCH 02/64] fix: a range without a (readable) low bound excluded
 zero and negative numbers

---
 src/mws/types/CmmlToken.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mws/types/CmmlToken.cpp b/src/mws/types/CmmlToken.cpp
index 2dc954c..6bc0823 100644
--- a/src/mws/types/CmmlToken.cpp
+++ b/src/mws/types/CmmlToken.cpp
@@ -228,7 +228,7 @@ std::string CmmlToken::getAttribute(const std::string& attr) const {
 /**
  * @brief CmmlToken::getRangeBounds
  * @return a pair with the first field set to the low bound
- * (MIN_DOUBLE if no low bound found)
+ * (the lowest double if no low bound found)
  * and the second field set to the upper bound
  * (MAX_DOUBLE if no upper bound found)
  */
@@ -239,7 +239,7 @@ const std::pair<double, double> CmmlToken::getRangeBounds() const {
 
     auto itLow = _attributes.find(RANGE_LOW_ATTR);
     if (itLow == _attributes.end()) {
-        bounds.first = numeric_limits<double>::min();
+        bounds.first = numeric_limits<double>::lowest();
     } else {
         try {
             bounds.first = std::stod(itLow->second);
@@ -247,7 +247,7 @@ const std::pair<double, double> CmmlToken::getRangeBounds() const {
         catch (std::exception & e) {
             UNUSED(e);
             PRINT_WARN("Invalid low bound for range.");
-            bounds.first = numeric_limits<double>::min();
+            bounds.first = numeric_limits<double>::lowest();
         }
     }
 
-- 
2.43.0


From dbeca625ae97d2525d246890ec28ad76f3527eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:04 +0000
Subject: [PATCH 03/64] fix: node offsets beyond 2^32 units were truncated when
 writing a memsector

---
 src/mws/index/memsector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/index/memsector.h b/src/mws/index/memsector.h
index d3f59d8..212ffa1 100644
--- a/src/mws/index/memsector.h
+++ b/src/mws/index/memsector.h
@@ -98,7 +98,7 @@ static inline const char* memsector_relOff2addr(const char* baseAddr,
     return baseAddr - MEMSECTOR_ALLOC_UNIT * off;
 }
 
-static inline memsector_off_t memsector_get_current_offset(
+static inline memsector_long_off_t memsector_get_current_offset(
     const memsector_writer_t* mswr) {
     assert(mswr->offset % MEMSECTOR_ALLOC_UNIT == 0);
     return mswr->offset / MEMSECTOR_ALLOC_UNIT;
-- 
2.43.0


From c886001e2c0e9fb5515a4b0d7a8d25f8e9b6d876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:32 +0000
Subject: [PATCH 04/64] fix: an ampersand in an attribute of a harvest or query
 was read as &#38;, so such urls, data attributes and variable names were
 reported wrongly

---
 src/mws/xmlparser/processMwsHarvest.cpp | 9 ++++++---
 src/mws/xmlparser/readMwsQuery.cpp      | 3 +++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mws/xmlparser/processMwsHarvest.cpp b/src/mws/xmlparser/processMwsHarvest.cpp
index a61621e..e66bb89 100644
--- a/src/mws/xmlparser/processMwsHarvest.cpp
+++ b/src/mws/xmlparser/processMwsHarvest.cpp
@@ -486,10 +486,13 @@ HarvestResult processHarvestFromFd(int fd, HarvestProcessor* harvestProcessor,
                                          XML_CHAR_ENCODING_UTF8)) ==
         nullptr) {
         PRINT_WARN("Error while creating the ParserContext\n");
-    }
+    } else {
+        // Otherwise, "&" in attribute values is delivered as "&#38;"
+        ctxtPtr->replaceEntities = 1;
         // Parsing the document
-        else if ((result.status = xmlParseDocument(ctxtPtr)) == -1) {
-        PRINT_WARN("Parsing XML document failed\n");
+        if ((result.status = xmlParseDocument(ctxtPtr)) == -1) {
+            PRINT_WARN("Parsing XML document failed\n");
+        }
     }
 
     // Freeing the parser context
diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index 95bce09..9223b33 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -401,6 +401,9 @@ Query* readMwsQuery(FILE* file, QueryMode mode) {
         return nullptr;
     }
 
+    // Otherwise, "&" in attribute values is delivered as "&#38;"
+    ctxtPtr->replaceEntities = 1;
+
     ret = xmlParseDocument(ctxtPtr);
     if (ret == -1) {
         PRINT_WARN("Parsing failed\n");
-- 
2.43.0


From 97a0cf0a7f862faf2ee15ebffde2b56345b7b921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:28 +0000
Subject: [PATCH 05/64] fix: memsector_load trusted the sizes and the root
 offset of the file, so damaged headers and truncated files crashed the loader
 or were served

---
 src/common/utils/mmap.h   |  2 +-
 src/mws/index/memsector.c | 44 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/common/utils/mmap.h b/src/common/utils/mmap.h
index 53ef1a9..c67fbb9 100644
--- a/src/common/utils/mmap.h
+++ b/src/common/utils/mmap.h
@@ -44,7 +44,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 typedef struct mmap_handle_s {
     const char* path;
     char*    start_addr;
-    uint32_t size;
+    uint64_t size;
 } mmap_handle_t;
 
 /*--------------------------------------------------------------------------*/
diff --git a/src/mws/index/memsector.c b/src/mws/index/memsector.c
index dbbac2c..960e2ad 100644
--- a/src/mws/index/memsector.c
+++ b/src/mws/index/memsector.c
@@ -36,6 +36,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <crc32/crc32.h>
 
 #include "common/utils/mmap.h"
+#include "mws/index/index.h"
 #include "mws/index/memsector.h"
 
 const uint64_t MEMSECTOR_MAGIC = 0x88CAFE88;
@@ -47,6 +48,9 @@ const uint32_t MEMSECTOR_VERSION = 1;
 
 static uint32_t memsector_get_checksum(const memsector_header_t* memsector);
 
+static bool memsector_has_valid_root(const memsector_header_t* memsector,
+                                     uint64_t file_size);
+
 /*--------------------------------------------------------------------------*/
 /* Implementation                                                           */
 /*--------------------------------------------------------------------------*/
@@ -109,6 +113,11 @@ int memsector_load(memsector_handle_t* ms, const char* path) {
     // read and validate memsector data
     memsector_header_t* memsector =
         (memsector_header_t*)ms->mmap_handle.start_addr;
+    if (ms->mmap_handle.size < sizeof(*memsector)) {
+        PRINT_WARN("File %s is not a memsector (too small)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
     if (memsector->magic != MEMSECTOR_MAGIC) {
         PRINT_WARN("File %s is not a memsector (magic mismatch)\n", path);
         mmap_unload(&ms->mmap_handle);
@@ -120,11 +129,21 @@ int memsector_load(memsector_handle_t* ms, const char* path) {
         mmap_unload(&ms->mmap_handle);
         return -1;
     }
+    if (memsector->index_size != ms->mmap_handle.size - sizeof(*memsector)) {
+        PRINT_WARN("Memsector %s is corrupted (size mismatch)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
     if (memsector->checksum != memsector_get_checksum(memsector)) {
         PRINT_WARN("Memsector %s is corrupted (checksum mismatch)\n", path);
         mmap_unload(&ms->mmap_handle);
         return -1;
     }
+    if (!memsector_has_valid_root(memsector, ms->mmap_handle.size)) {
+        PRINT_WARN("Memsector %s is corrupted (invalid root)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
 
     // initialize handle data
     ms->ms = memsector;
@@ -151,3 +170,28 @@ static uint32_t memsector_get_checksum(const memsector_header_t* memsector) {
 
     return crc32(/* initial crc32 = */ 0, index_start, index_size);
 }
+
+/* the root is the last node of the file, so it has to end where the file does */
+static bool memsector_has_valid_root(const memsector_header_t* memsector,
+                                     uint64_t file_size) {
+    uint64_t root_off = memsector->root_off;
+    uint64_t entry_size;
+
+    if (root_off > file_size / MEMSECTOR_ALLOC_UNIT) return false;
+    root_off *= MEMSECTOR_ALLOC_UNIT;
+    if (root_off < sizeof(*memsector)) return false;
+    if (file_size - root_off < sizeof(inode_t)) return false;
+
+    const inode_t* root = (const inode_t*)((const char*)memsector + root_off);
+    if (root->type == INTERNAL_NODE) {
+        entry_size = sizeof(encoded_token_dict_entry_t);
+    } else if (root->type == LONG_INTERNAL_NODE) {
+        entry_size = sizeof(encoded_token_dict_entry_long_t);
+    } else {
+        return false;
+    }
+
+    uint64_t entries_size = file_size - root_off - sizeof(inode_t);
+    return entries_size % entry_size == 0 &&
+           root->size == entries_size / entry_size;
+}
-- 
2.43.0


From c81063789f57685b5a86b4b1d5270b08c0e1070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:37 +0000
Subject: [PATCH 06/64] fix: mws-index passed an uninitialised deleteOldData,
 so whether an existing index was deleted or refused was random

---
 src/mws/index/IndexWriter.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mws/index/IndexWriter.hpp b/src/mws/index/IndexWriter.hpp
index 19f0875..2ce4081 100644
--- a/src/mws/index/IndexWriter.hpp
+++ b/src/mws/index/IndexWriter.hpp
@@ -41,6 +41,8 @@ struct IndexConfiguration {
     HarvesterConfiguration harvester;
     std::string dataPath;
     bool deleteOldData;
+
+    IndexConfiguration() : deleteOldData(false) {}
 };
 
 /**
-- 
2.43.0


From a58f82fae30aaf447100933ea25c227924fa9f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:06 +0000
Subject: [PATCH 07/64] fix: an index build that was interrupted or could not
 write everything left a directory that loads, or reported success

---
 src/mws/index/IndexBuilder.cpp | 18 +++++++++++++---
 src/mws/index/IndexBuilder.hpp |  6 ++++++
 src/mws/index/IndexWriter.cpp  | 39 ++++++++++++++++++++++++++++------
 src/mws/index/TmpIndex.cpp     |  4 ++--
 src/mws/index/TmpIndex.hpp     |  3 ++-
 src/mws/index/memsector.c      | 24 +++++++++++++++------
 src/mws/index/memsector.h      |  1 +
 7 files changed, 75 insertions(+), 20 deletions(-)

diff --git a/src/mws/index/IndexBuilder.cpp b/src/mws/index/IndexBuilder.cpp
index dfedf6c..caea243 100644
--- a/src/mws/index/IndexBuilder.cpp
+++ b/src/mws/index/IndexBuilder.cpp
@@ -79,11 +79,19 @@ IndexBuilder::IndexBuilder(dbc::FormulaDb* formulaDb, dbc::CrawlDb* crawlDb,
       m_crawlDb(crawlDb),
       m_index(index),
       m_meaningDictionary(meaningDictionary),
-      m_indexingOptions(std::move(encodingOptions)) {}
+      m_indexingOptions(std::move(encodingOptions)),
+      m_hasStorageErrors(false) {}
 
 CrawlId IndexBuilder::indexCrawlData(const CrawlData& crawlData) {
     if (m_crawlDb != nullptr) {
-        return m_crawlDb->putData(crawlData);
+        try {
+            return m_crawlDb->putData(crawlData);
+        }
+        catch (const std::exception& e) {
+            PRINT_WARN("Could not store crawl data: %s\n", e.what());
+            m_hasStorageErrors = true;
+            return CRAWLID_NULL;
+        }
     } else {
         return CRAWLID_NULL;
     }
@@ -110,7 +118,11 @@ int IndexBuilder::indexContentMath(const CmmlToken* cmmlToken,
             types::FormulaPath formulaPath;
             formulaPath.xmlId = xmlId;
             formulaPath.xpath = token->getXpath();
-            m_formulaDb->insertFormula(leaf->id, crawlId, formulaPath);
+            if (m_formulaDb->insertFormula(leaf->id, crawlId, formulaPath) !=
+                0) {
+                PRINT_WARN("Could not store a formula\n");
+                m_hasStorageErrors = true;
+            }
             leaf->solutions++;
             numSubExpressions++;
         }
diff --git a/src/mws/index/IndexBuilder.hpp b/src/mws/index/IndexBuilder.hpp
index 5733bef..a50b8a2 100644
--- a/src/mws/index/IndexBuilder.hpp
+++ b/src/mws/index/IndexBuilder.hpp
@@ -58,6 +58,7 @@ class IndexBuilder {
     mws::index::TmpIndex* m_index;
     index::MeaningDictionary* m_meaningDictionary;
     index::ExpressionEncoder::Config m_indexingOptions;
+    bool m_hasStorageErrors;
 
  public:
     IndexBuilder(dbc::FormulaDb* formulaDb, dbc::CrawlDb* crawlDb,
@@ -68,6 +69,11 @@ class IndexBuilder {
 
     const mws::index::TmpIndex* getIndex() const { return m_index; }
 
+    /**
+     * @return true if some data or formula could not be stored
+     */
+    bool hasStorageErrors() const { return m_hasStorageErrors; }
+
     /**
      * @brief index crawl data
      * @param crawlData URL and opaque data given in the crawled harvest
diff --git a/src/mws/index/IndexWriter.cpp b/src/mws/index/IndexWriter.cpp
index 717c1b9..272ee14 100644
--- a/src/mws/index/IndexWriter.cpp
+++ b/src/mws/index/IndexWriter.cpp
@@ -28,6 +28,10 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
   * @date 29 May 2014
   */
 
+#include <errno.h>
+#include <string.h>
+#include <unistd.h>
+
 #include <cinttypes>
 #include <stdexcept>
 using std::exception;
@@ -64,6 +68,16 @@ int createCompressedIndex(const IndexConfiguration& config) {
     std::ostream os(&fb);
     uint64_t numExpressions;
 
+    const std::string memsector_path = output_dir + "/" + INDEX_MEMSECTOR_FILE;
+
+    // The memsector is what makes a directory a valid index: it goes before any
+    // old data does, and it is written last.
+    if (config.deleteOldData && unlink(memsector_path.c_str()) != 0 &&
+        errno != ENOENT) {
+        PRINT_WARN("%s: %s\n", memsector_path.c_str(), strerror(errno));
+        return EXIT_FAILURE;
+    }
+
     try {
         create_directory(output_dir);
         auto crawlLevDb = new dbc::LevCrawlDb();
@@ -89,16 +103,27 @@ int createCompressedIndex(const IndexConfiguration& config) {
     }
     PRINT_LOG("%" PRIu64 " expressions loaded.\n", numExpressions);
 
-    memsector_create(&mwsr, (output_dir + "/" + INDEX_MEMSECTOR_FILE).c_str());
-    index.exportToMemsector(&mwsr);
-    PRINT_LOG("Created index of %s\n",
-              humanReadableByteCount(mwsr.ms.index_size,
-                                     /* si= */ false).c_str());
+    if (indexBuilder.hasStorageErrors()) {
+        PRINT_WARN("Could not store all expressions. Aborting...\n");
+        return EXIT_FAILURE;
+    }
 
     fb.open((output_dir + "/" + MEANING_DICTIONARY_FILE).c_str(),
             std::ios::out);
-    meaningDictionary.save(os);
-    fb.close();
+    if (!fb.is_open() || meaningDictionary.save(os) != 0 || !os.good() ||
+        fb.close() == nullptr) {
+        PRINT_WARN("Could not write the meaning dictionary. Aborting...\n");
+        return EXIT_FAILURE;
+    }
+
+    if (memsector_create(&mwsr, memsector_path.c_str()) != 0 ||
+        index.exportToMemsector(&mwsr) != 0) {
+        PRINT_WARN("Could not write the index. Aborting...\n");
+        return EXIT_FAILURE;
+    }
+    PRINT_LOG("Created index of %s\n",
+              humanReadableByteCount(mwsr.ms.index_size,
+                                     /* si= */ false).c_str());
 
     return EXIT_SUCCESS;
 }
diff --git a/src/mws/index/TmpIndex.cpp b/src/mws/index/TmpIndex.cpp
index 4f4f5b4..7e36cc4 100644
--- a/src/mws/index/TmpIndex.cpp
+++ b/src/mws/index/TmpIndex.cpp
@@ -142,7 +142,7 @@ uint64_t TmpIndex::computeMemsectorSize() const {
     return size;
 }
 
-void TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
+int TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
     stack<vector<memsector_long_off_t> > dfsStack;
 
     auto onPush = [&](TmpIndexAccessor::Iterator iterator) {
@@ -181,7 +181,7 @@ void TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
 
     dfsStack.pop();
     assert(dfsStack.empty());
-    memsector_save(mswr, rootOffset);
+    return memsector_save(mswr, rootOffset);
 }
 
 }  // namespace index
diff --git a/src/mws/index/TmpIndex.hpp b/src/mws/index/TmpIndex.hpp
index f74c18c..331507d 100644
--- a/src/mws/index/TmpIndex.hpp
+++ b/src/mws/index/TmpIndex.hpp
@@ -117,8 +117,9 @@ class TmpIndex {
     /**
      * @brief exportToMemsector dump index data to a memsector index
      * @param mswr memsector writer handle
+     * @return 0 on success, -1 on failure.
      */
-    void exportToMemsector(memsector_writer_t* mswr) const;
+    int exportToMemsector(memsector_writer_t* mswr) const;
 
  private:
     static memsector_long_off_t _writeChildrenOffsets(
diff --git a/src/mws/index/memsector.c b/src/mws/index/memsector.c
index 960e2ad..2fe6aa6 100644
--- a/src/mws/index/memsector.c
+++ b/src/mws/index/memsector.c
@@ -66,12 +66,10 @@ int memsector_create(memsector_writer_t* mswr, const char* path) {
         return -1;
     }
 
-    /* initialize header */
-    mswr->ms.magic = MEMSECTOR_MAGIC;
-    mswr->ms.version = MEMSECTOR_VERSION;
     mswr->offset = sizeof(mswr->ms);
 
-    /* write header to memsector file */
+    /* reserve space for the header; until memsector_save() writes the real one
+     * the file is not a valid memsector */
     size_t items_writen = fwrite(&mswr->ms, sizeof(mswr->ms), 1, mswr->file);
     if (items_writen != 1) {
         PRINT_WARN("Error while writing memsector header: %s\n",
@@ -87,18 +85,30 @@ void memsector_write(memsector_writer_t* msw, void* data, size_t size) {
     size_t items_writen = fwrite(data, size, 1, msw->file);
     if (items_writen != 1) {
         perror("fwrite");
+        msw->write_failed = true;
     }
     msw->offset += size;
     msw->ms.checksum = crc32(msw->ms.checksum, data, size);
 }
 
 int memsector_save(memsector_writer_t* msw, memsector_long_off_t index_off) {
+    bool failed = msw->write_failed;
+
+    /* initialize header */
+    msw->ms.magic = MEMSECTOR_MAGIC;
+    msw->ms.version = MEMSECTOR_VERSION;
     msw->ms.root_off = index_off;
     msw->ms.index_size = msw->offset - sizeof(msw->ms);
-    fseek(msw->file, 0, SEEK_SET);
-    fwrite(&msw->ms, sizeof(msw->ms), 1, msw->file);
 
-    return fclose(msw->file);
+    /* the header makes the memsector valid, so it comes last */
+    failed = failed || fseek(msw->file, 0, SEEK_SET) != 0 ||
+             fwrite(&msw->ms, sizeof(msw->ms), 1, msw->file) != 1;
+    if (fclose(msw->file) != 0) failed = true;
+    if (failed) {
+        PRINT_WARN("Error while writing memsector: %s\n", strerror(errno));
+    }
+
+    return failed ? -1 : 0;
 }
 
 int memsector_load(memsector_handle_t* ms, const char* path) {
diff --git a/src/mws/index/memsector.h b/src/mws/index/memsector.h
index 212ffa1..ba7f937 100644
--- a/src/mws/index/memsector.h
+++ b/src/mws/index/memsector.h
@@ -75,6 +75,7 @@ typedef struct memsector_writer_s {
     FILE* file;
     memsector_header_t ms;
     uint64_t offset;
+    bool write_failed;
     struct {
         uint32_t entries_promised;
         uint32_t entries_delivered;
-- 
2.43.0


From c24b64a1a12a704d279b884cd3f670ad0ed5ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 08/64] fix: variables and ranges were encoded with arity 1 and
 with their children, which corrupted the index, and ids of many variables or
 ranges ran into each other

---
 src/mws/index/ExpressionEncoder.cpp | 34 ++++++++++++++++++++---------
 src/mws/index/encoded_token.h       |  6 +++--
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index a97cea1..50e30a2 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -66,8 +66,8 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
     int rv = 0;
     stack<const CmmlToken*> dfs_stack;
     MeaningDictionary namedVarDictionary;
-    int anonVarId = 0;
-    int anonRangeId = 0;  // we only allow anonymous ranges
+    MeaningId anonVarId = 0;
+    MeaningId anonRangeId = 0;  // we only allow anonymous ranges
 
     encodedFormula->clear();
 
@@ -79,13 +79,20 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
 
         if (token->isVar()) {
             string qvarName = token->getVarName();
-            encoded_token.arity = 1;
+            encoded_token.arity = 0;
             if (qvarName == "") {
+                // anonymous variables are independent of each other even if
+                // they share an id
                 encoded_token.id = _getAnonVarOffset() + anonVarId;
-                anonVarId++;
+                if (anonVarId < VARS_PER_RANGE - 1) anonVarId++;
             } else {
-                encoded_token.id =
-                    _getNamedVarOffset() + namedVarDictionary.put(qvarName);
+                // ids returned by the dictionary start at 1
+                MeaningId varId = namedVarDictionary.put(qvarName) - 1;
+                if (varId >= VARS_PER_RANGE) {
+                    PRINT_WARN("Too many different variables\n");
+                    return -1;
+                }
+                encoded_token.id = _getNamedVarOffset() + varId;
                 if (expressionInfo != nullptr) {
                     expressionInfo->qvarNames.push_back(qvarName);
                     expressionInfo->qvarXpaths
@@ -93,7 +100,11 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
                 }
             }
         } else if (token->isRange()) {
-            encoded_token.arity = 1;
+            if (anonRangeId >= VARS_PER_RANGE) {
+                PRINT_WARN("Too many ranges\n");
+                return -1;
+            }
+            encoded_token.arity = 0;
             encoded_token.id = _getRangeOffset() + anonRangeId;
             anonRangeId++;
             if (expressionInfo != nullptr) {
@@ -118,6 +129,9 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
         }
         encodedFormula->push_back(encoded_token);
 
+        // Variables and ranges stand for whole subterms
+        if (token->isVar() || token->isRange()) continue;
+
         // Replenish stack
         for (auto rIt = token->getChildNodes().rbegin();
              rIt != token->getChildNodes().rend(); rIt++) {
@@ -174,9 +188,9 @@ QueryEncoder::QueryEncoder(MeaningDictionary* dictionary)
 
 QueryEncoder::~QueryEncoder() {}
 
-MeaningId QueryEncoder::_getAnonVarOffset() const { return ANON_HVAR_ID_MIN; }
+MeaningId QueryEncoder::_getAnonVarOffset() const { return ANON_QVAR_ID_MIN; }
 
-MeaningId QueryEncoder::_getNamedVarOffset() const { return HVAR_ID_MIN; }
+MeaningId QueryEncoder::_getNamedVarOffset() const { return QVAR_ID_MIN; }
 
 MeaningId QueryEncoder::_getRangeOffset() const { return RANGE_ID_MIN; }
 
@@ -203,7 +217,7 @@ Meaning ExpressionDecoder::getMeaning(MeaningId meaningId) const {
     } else if (meaningId >= QVAR_ID_MIN) {
         return "qvar#" + to_string(meaningId - QVAR_ID_MIN);
     } else if (meaningId >= ANON_HVAR_ID_MIN) {
-        return "anonymous_hvar#" + to_string(meaningId - ANON_QVAR_ID_MIN);
+        return "anonymous_hvar#" + to_string(meaningId - ANON_HVAR_ID_MIN);
     } else if (meaningId >= HVAR_ID_MIN) {
         return "hvar#" + to_string(meaningId - HVAR_ID_MIN);
     } else {
diff --git a/src/mws/index/encoded_token.h b/src/mws/index/encoded_token.h
index e095e27..e6bcdab 100644
--- a/src/mws/index/encoded_token.h
+++ b/src/mws/index/encoded_token.h
@@ -57,6 +57,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #define RANGE_ID_MIN 129
 #define RANGE_ID_MAX 160
 #define CONSTANT_ID_MIN 161
+/* Number of ids of each kind of variable and of ranges */
+#define VARS_PER_RANGE 32
 
 /*--------------------------------------------------------------------------*/
 /* Type declarations                                                        */
@@ -117,8 +119,8 @@ static inline bool encoded_token_is_range(encoded_token_t token) {
 }
 
 static inline bool encoded_token_is_anon_var(encoded_token_t token) {
-    return (ANON_HVAR_ID_MIN <= token.id && token.id < ANON_HVAR_ID_MAX) ||
-           (ANON_QVAR_ID_MIN <= token.id && token.id < ANON_QVAR_ID_MAX);
+    return (ANON_HVAR_ID_MIN <= token.id && token.id <= ANON_HVAR_ID_MAX) ||
+           (ANON_QVAR_ID_MIN <= token.id && token.id <= ANON_QVAR_ID_MAX);
 }
 
 END_DECLS
-- 
2.43.0


From a6bfe449f7a72cae1c9fdf42f0ae9862ee67d8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 09/64] fix: after an error in a harvest the parser's remaining
 events were taken up in a reset state, and the error was not always reported

---
 src/mws/xmlparser/processMwsHarvest.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/mws/xmlparser/processMwsHarvest.cpp b/src/mws/xmlparser/processMwsHarvest.cpp
index e66bb89..0c807e7 100644
--- a/src/mws/xmlparser/processMwsHarvest.cpp
+++ b/src/mws/xmlparser/processMwsHarvest.cpp
@@ -124,6 +124,7 @@ struct MwsHarvest_SaxUserData {
           errorDetected(false),
           parsedExpr(0),
           warnings(0),
+          stringWriter(nullptr),
           exprUri("") {}
 };
 
@@ -159,6 +160,7 @@ static inline void tearDownCopyToStringWriter(MwsHarvest_SaxUserData* data) {
     xmlTextWriterEndDocument(data->stringWriter);
     xmlTextWriterFlush(data->stringWriter);
     xmlFreeTextWriter(data->stringWriter);
+    data->stringWriter = nullptr;
     data->data = string(data->buffer.data(), data->buffer.size());
 }
 
@@ -195,6 +197,8 @@ static void my_endDocument(void* user_data) {
 static void my_startElement(void* user_data, const xmlChar* name,
                             const xmlChar** attrs) {
     MwsHarvest_SaxUserData* data = (MwsHarvest_SaxUserData*)user_data;
+    // The parser goes on after errors it can recover from
+    if (data->errorDetected) return;
 
     switch (data->state) {
     case MWSHARVESTSTATE_DEFAULT:
@@ -336,6 +340,8 @@ static void my_startElement(void* user_data, const xmlChar* name,
   */
 static void my_endElement(void* user_data, const xmlChar* name) {
     MwsHarvest_SaxUserData* data = (MwsHarvest_SaxUserData*)user_data;
+    // The parser goes on after errors it can recover from
+    if (data->errorDetected) return;
 
     switch (data->state) {
     case MWSHARVESTSTATE_DEFAULT:
@@ -401,6 +407,8 @@ static void my_endElement(void* user_data, const xmlChar* name) {
 
 static void my_characters(void* user_data, const xmlChar* ch, int len) {
     MwsHarvest_SaxUserData* data = (MwsHarvest_SaxUserData*)user_data;
+    // The parser goes on after errors it can recover from
+    if (data->errorDetected) return;
 
     if (data->state == MWSHARVESTSTATE_IN_MWS_EXPR &&  // Valid state
         data->currentToken != nullptr) {               // Valid token
@@ -493,6 +501,7 @@ HarvestResult processHarvestFromFd(int fd, HarvestProcessor* harvestProcessor,
         if ((result.status = xmlParseDocument(ctxtPtr)) == -1) {
             PRINT_WARN("Parsing XML document failed\n");
         }
+        if (user_data.errorDetected) result.status = -1;
     }
 
     // Freeing the parser context
@@ -503,6 +512,12 @@ HarvestResult processHarvestFromFd(int fd, HarvestProcessor* harvestProcessor,
     // Unlocking libXML -- to allow multi-threaded use
     xmlUnlockLibrary();
 
+    // Freeing what an interrupted parse left behind
+    delete user_data.currentTokenRoot;
+    if (user_data.stringWriter != nullptr) {
+        xmlFreeTextWriter(user_data.stringWriter);
+    }
+
     result.numExpressions = user_data.parsedExpr;
 
     return result;
-- 
2.43.0


From b85d9c12dedf5cd8a2b9b082bf1cb55a440539ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 10/64] fix: one unreadable harvest file made the loader skip
 the rest of the directory

---
 src/mws/index/IndexBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mws/index/IndexBuilder.cpp b/src/mws/index/IndexBuilder.cpp
index caea243..124d8f7 100644
--- a/src/mws/index/IndexBuilder.cpp
+++ b/src/mws/index/IndexBuilder.cpp
@@ -157,8 +157,9 @@ uint64_t loadHarvests(IndexBuilder* indexBuilder,
                 PRINT_LOG("Loading %s... ", path.c_str());
                 int fd = open(path.c_str(), O_RDONLY);
                 if (fd < 0) {
+                    // does not concern the other files
                     perror(path.c_str());
-                    return -1;
+                    return 0;
                 }
                 auto loadReturn = loadHarvestFromFd(indexBuilder, fd,
                                                     !config.shouldIgnoreData);
-- 
2.43.0


From 39a2be8d18978b03c2426dd2c6e31114516887ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 11/64] fix: offset + size overflowed in the paging of answers

---
 src/mws/query/SearchContext.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index 6b86b96..3dc376b 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -297,12 +297,10 @@ MwsAnswset* SearchContext::getResult(typename A::Index* index,
     auto startTime = Time::now();
 
     // Checking the arguments
-    if (offset + size > maxTotal) {
-        if (maxTotal <= offset) {
-            size = 0;
-        } else {
-            size = maxTotal - offset;
-        }
+    if (maxTotal <= offset) {
+        size = 0;
+    } else if (size > maxTotal - offset) {
+        size = maxTotal - offset;
     }
 
     // Retrieving the solutions
-- 
2.43.0


From bcca3256ccf340166cd786ba7942efc9452bc730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 12/64] fix: query parsing used freed or unset state after
 errors, truncated numbers, and let schemad use the mws-ids output it cannot
 write

---
 src/mws/types/Query.hpp            |  3 +-
 src/mws/xmlparser/readMwsQuery.cpp | 44 ++++++++++++++++++++++--------
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/mws/types/Query.hpp b/src/mws/types/Query.hpp
index 0f3ea24..5b94786 100644
--- a/src/mws/types/Query.hpp
+++ b/src/mws/types/Query.hpp
@@ -90,7 +90,8 @@ struct Query {
           attrResultTotalReq(DEFAULT_QUERY_TOTALREQ),
           attrResultTotalReqNr(DEFAULT_QUERY_RESULT_TOTAL),
           restricted(false),
-          max_depth(DEFAULT_SCHEMA_DEPTH) {}
+          max_depth(DEFAULT_SCHEMA_DEPTH),
+          cutoff_mode('A') {}
 
     /// Destructor of the MwsQuery class
     ~Query() {
diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index 9223b33..678b2fe 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -33,7 +33,9 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 // System includes
 
+#include <limits.h>
 #include <stdarg.h>
+#include <stdint.h>
 #include <stdio.h>                   // C Standrad Input Output
 #include <stdlib.h>                  // C general purpose library
 #include <string.h>                  // C string library
@@ -125,13 +127,15 @@ static inline int fileInputReadCallback(void* file, char* buffer, int len) {
     return fread(buffer, sizeof(char), len, (FILE*)file);
 }
 
-static void my_endDocument(void* user_data) {
-    MwsQuery_SaxUserData* data = (MwsQuery_SaxUserData*)user_data;
-
-    if (data->errorDetected) {
-        delete data->result;
-        data->result = nullptr;
-    }
+/**
+  * @brief Read a number given as attribute; numbers that do not fit an int are
+  * replaced by the nearest int
+  */
+static inline int readInt(const xmlChar* value) {
+    long number = strtol((const char*)value, nullptr, 10);
+    if (number > INT_MAX) return INT_MAX;
+    if (number < INT_MIN) return INT_MIN;
+    return (int)number;
 }
 
 /**
@@ -149,6 +153,8 @@ static void my_startElement(void* user_data, const xmlChar* name,
     int numValue;
     BoolType boolValue;
     MwsQuery_SaxUserData* data = (MwsQuery_SaxUserData*)user_data;
+    // The parser goes on after errors it can recover from
+    if (data->errorDetected) return;
 
     switch (data->state) {
     case MWSQUERYSTATE_DEFAULT:
@@ -161,12 +167,12 @@ static void my_startElement(void* user_data, const xmlChar* name,
                 } else if (strcmp((char*)attrs[0],
                                   MWSQUERY_ATTR_ANSWSET_MAXSIZE) ==
                            0) {
-                    numValue = (int)strtol((char*)attrs[1], nullptr, 10);
+                    numValue = readInt(attrs[1]);
                     data->result->attrResultMaxSize = numValue;
                 } else if (strcmp((char*)attrs[0],
                                   MWSQUERY_ATTR_ANSWSET_LIMITMIN) ==
                            0) {
-                    numValue = (int)strtol((char*)attrs[1], nullptr, 10);
+                    numValue = readInt(attrs[1]);
                     data->result->attrResultLimitMin = numValue;
                 } else if (strcmp((char*)attrs[0],
                                   MWSQUERY_ATTR_ANSWSET_TOTALREQ) ==
@@ -175,7 +181,9 @@ static void my_startElement(void* user_data, const xmlChar* name,
                     data->result->attrResultTotalReq = boolValue;
                 } else if (strcmp((char*)attrs[0], SCHQUERY_ATTR_DEPTH) ==
                            0) {
-                    numValue = (int)strtol((char*)attrs[1], nullptr, 10);
+                    numValue = readInt(attrs[1]);
+                    if (numValue < 0) numValue = 0;
+                    if (numValue > UINT8_MAX) numValue = UINT8_MAX;
                     data->result->max_depth = numValue;
                 } else if (strcmp((char*)attrs[0], SCHQUERY_ATTR_CUTOFFMODE) ==
                            0) {
@@ -201,7 +209,8 @@ static void my_startElement(void* user_data, const xmlChar* name,
                             data->result->responseFormatter =
                                 RESPONSE_FORMATTER_MWS_JSON;
                         }
-                    } else if (strcmp((char*)attrs[1], "mws-ids") == 0) {
+                    } else if (!schemaMode &&
+                               strcmp((char*)attrs[1], "mws-ids") == 0) {
                         data->result->responseFormatter =
                             RESPONSE_FORMATTER_MWS_IDS;
                         data->result->options.includeHits = false;
@@ -274,6 +283,8 @@ static void my_endElement(void* user_data, const xmlChar* name) {
     UNUSED(name);
 
     MwsQuery_SaxUserData* data = (MwsQuery_SaxUserData*)user_data;
+    // The parser goes on after errors it can recover from
+    if (data->errorDetected) return;
 
     switch (data->state) {
     case MWSQUERYSTATE_DEFAULT:
@@ -307,6 +318,8 @@ static void my_endElement(void* user_data, const xmlChar* name) {
 
 static void my_characters(void* user_data, const xmlChar* ch, int len) {
     MwsQuery_SaxUserData* data = (MwsQuery_SaxUserData*)user_data;
+    // The parser goes on after errors it can recover from
+    if (data->errorDetected) return;
 
     if (data->state == MWSQUERYSTATE_IN_MWS_EXPR &&
         data->currentToken != nullptr) {
@@ -380,7 +393,6 @@ Query* readMwsQuery(FILE* file, QueryMode mode) {
 
     // Registering Sax callbacks with defined ones
     saxHandler.getEntity = my_getEntity;
-    saxHandler.endDocument = my_endDocument;
     saxHandler.startElement = my_startElement;
     saxHandler.endElement = my_endElement;
     saxHandler.characters = my_characters;
@@ -398,6 +410,7 @@ Query* readMwsQuery(FILE* file, QueryMode mode) {
     if (ctxtPtr == nullptr) {
         PRINT_WARN("Error while creating the ParserContext\n");
         xmlUnlockLibrary();
+        delete user_data.result;
         return nullptr;
     }
 
@@ -410,6 +423,7 @@ Query* readMwsQuery(FILE* file, QueryMode mode) {
     }
     if (!ctxtPtr->wellFormed) {
         PRINT_WARN("Bad XML document\n");
+        user_data.errorDetected = true;
     }
 
     // Freeing the parser context
@@ -418,6 +432,12 @@ Query* readMwsQuery(FILE* file, QueryMode mode) {
     // Unlocking libXML -- to allow multi-threaded use
     xmlUnlockLibrary();
 
+    delete user_data.currentTokenRoot;
+    if (user_data.errorDetected) {
+        delete user_data.result;
+        return nullptr;
+    }
+
     return user_data.result;
 }
 
-- 
2.43.0


From 7138ef252d488fc7147f2c2cbbca980f2cf75aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 13/64] fix: a formula that cannot be encoded shifted the
 positions of the following ones in the schema answer

---
 src/mws/daemon/SchemaQueryHandler.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index 8508940..af6327a 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -69,11 +69,15 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
 
     vector<const CmmlToken*> exprsTokens;
     exprsTokens.reserve(query->tokens.size());
-    for (const CmmlToken* tok : query->tokens) {
+    vector<uint32_t> exprsPositions;  // in the query
+    exprsPositions.reserve(query->tokens.size());
+    for (size_t i = 0; i < query->tokens.size(); i++) {
+        const CmmlToken* tok = query->tokens[i];
         EncodedFormula encTok;
         if (encoder.encode(_encodingConfig, tok, &encTok, nullptr) == 0) {
             exprs.push_back(std::move(encTok));
             exprsTokens.push_back(tok);
+            exprsPositions.push_back(i);
         }
     }
 
@@ -99,6 +103,10 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
     /* we can't deduce the substitutions in SchemaEngine because we need
      * the original query, so we will do it here */
     for (ExprSchema& sch : result->schemata) {
+        // formulae which could not be encoded were left out
+        for (uint32_t& formula : sch.formulae) {
+            formula = exprsPositions[formula];
+        }
         /* As a heuristic,
          * we choose the first formula in this class to be schematized */
         const uint32_t representativeId = sch.formulae.front();
-- 
2.43.0


From 8bfc7cd10ee70fc4b45f2c712248ab7af2d875a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 14/64] fix: the body of an aborted request was never freed

---
 src/mws/daemon/Daemon.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/mws/daemon/Daemon.cpp b/src/mws/daemon/Daemon.cpp
index 623333c..80d8d75 100644
--- a/src/mws/daemon/Daemon.cpp
+++ b/src/mws/daemon/Daemon.cpp
@@ -194,7 +194,6 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
             size_t nbytes = fwrite(upload_data, sizeof(char), *upload_data_size,
                                    memstream->getInput());
             if (nbytes <= 0) {
-                delete memstream;
                 return MHD_NO;
             }
 
@@ -213,6 +212,7 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
     }
     unique_ptr<Query> mwsQuery(readMwsQuery(memstream->getOutputFile(), qMode));
     delete memstream;
+    *ptr = nullptr;
 
     // Check if query failed or is empty
     if (mwsQuery == nullptr || mwsQuery->tokens.size() == 0) {
@@ -270,6 +270,19 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
     return ret;
 }
 
+static void requestCompletedCallback(void* cls,
+                                     struct MHD_Connection* connection,
+                                     void** ptr,
+                                     enum MHD_RequestTerminationCode toe) {
+    UNUSED(cls);
+    UNUSED(connection);
+    UNUSED(toe);
+
+    // Left behind by requests which were aborted
+    delete (MemStream*)*ptr;
+    *ptr = nullptr;
+}
+
 Daemon::Daemon(QueryHandler* queryHandler, const Config& config)
     : _queryHandler(queryHandler) {
 
@@ -285,7 +298,10 @@ Daemon::Daemon(QueryHandler* queryHandler, const Config& config)
     _mhd = MHD_start_daemon(mhd_flags, config.port, (MHD_AcceptPolicyCallback)acceptPolicyCallback,
                             /* PolicyContext = */ nullptr,
                             (MHD_AccessHandlerCallback)accessHandlerCallback, _queryHandler.get(),
-                            MHD_OPTION_CONNECTION_LIMIT, 20, MHD_OPTION_END);
+                            MHD_OPTION_CONNECTION_LIMIT, 20,
+                            MHD_OPTION_NOTIFY_COMPLETED,
+                            (MHD_RequestCompletedCallback)requestCompletedCallback,
+                            nullptr, MHD_OPTION_END);
     if (_mhd == nullptr) {
         throw runtime_error(
             formattedString("MHD_start_daemon: %s", strerror(errno)));
-- 
2.43.0


From 115970e90cbcc831ad077d1de0efc9cf7f888e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 15/64] fix: an element called just m: was given an empty name,
 which the schema XML answer could not write

---
 src/mws/types/CmmlToken.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/types/CmmlToken.cpp b/src/mws/types/CmmlToken.cpp
index 6bc0823..a50048f 100644
--- a/src/mws/types/CmmlToken.cpp
+++ b/src/mws/types/CmmlToken.cpp
@@ -90,7 +90,7 @@ CmmlToken::~CmmlToken() {
 }
 
 void CmmlToken::setTag(const std::string& aTag) {
-    if (aTag.compare(0, 2, "m:") == 0) {
+    if (aTag.size() > 2 && aTag.compare(0, 2, "m:") == 0) {
         _tag = aTag.substr(2, aTag.size() - 2);
     } else {
         _tag = aTag;
-- 
2.43.0


From d1fd3de4273f84d4a611a6cb7fe7f4c691d5bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 16/64] fix: CmmlToken::toString did not escape text, so
 cmmlSchema of the schema answers was not XML

---
 src/mws/types/CmmlToken.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/mws/types/CmmlToken.cpp b/src/mws/types/CmmlToken.cpp
index a50048f..4d5e6ae 100644
--- a/src/mws/types/CmmlToken.cpp
+++ b/src/mws/types/CmmlToken.cpp
@@ -49,6 +49,30 @@ using std::numeric_limits;
 namespace mws {
 namespace types {
 
+static string escapeXmlText(const string& text) {
+    string result;
+    for (char c : text) {
+        switch (c) {
+        case '&':
+            result += "&amp;";
+            break;
+        case '<':
+            result += "&lt;";
+            break;
+        case '>':
+            result += "&gt;";
+            break;
+        case '"':
+            result += "&quot;";
+            break;
+        default:
+            result += c;
+        }
+    }
+
+    return result;
+}
+
 CmmlToken::CmmlToken()
     : _tag(""),
       _textContent(""),
@@ -153,10 +177,10 @@ string CmmlToken::toString(int indent) const {
     ss << padding << "<" << _tag << " ";
 
     for (mIt = _attributes.begin(); mIt != _attributes.end(); mIt++) {
-        ss << mIt->first << "=\"" << mIt->second << "\" ";
+        ss << mIt->first << "=\"" << escapeXmlText(mIt->second) << "\" ";
     }
 
-    ss << ">" << _textContent;
+    ss << ">" << escapeXmlText(_textContent);
 
     if (_childNodes.size()) {
         ss << "\n";
-- 
2.43.0


From 817fbee36421cee281b83ef56fe3d9ea443b944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 17/64] fix: the time of an answer to a query with unknown
 symbols was uninitialised

---
 src/mws/types/MwsAnswset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/types/MwsAnswset.hpp b/src/mws/types/MwsAnswset.hpp
index 04d1cfb..c77cf4f 100644
--- a/src/mws/types/MwsAnswset.hpp
+++ b/src/mws/types/MwsAnswset.hpp
@@ -58,7 +58,7 @@ struct MwsAnswset : GenericAnswer {
     /// Duration for retrieng results (in ms)
     time_t time;
 
-    MwsAnswset() : total(0) {}
+    MwsAnswset() : total(0), time(0) {}
 
     ~MwsAnswset() {
         for (auto answer : answers) {
-- 
2.43.0


From 5815b7e9e7e90553c59be5dd909821afbd957dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 18/64] fix: schemad -c wrote renamed identifiers as elements
 named ~1, which is not XML

---
 src/mws/query/SchemaEngine.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mws/query/SchemaEngine.cpp b/src/mws/query/SchemaEngine.cpp
index e439292..0744cef 100644
--- a/src/mws/query/SchemaEngine.cpp
+++ b/src/mws/query/SchemaEngine.cpp
@@ -328,7 +328,8 @@ pair<string, string> SchemaEngine::decodeMeaning(
     const types::Meaning& meaning) const {
     size_t delim_pos = meaning.find('#');
     if (delim_pos == string::npos) {
-        return {meaning, ""};
+        // only renamed identifiers (e.g. ~1) have no delimiter
+        return {"ci", meaning};
     }
 
     string tag = meaning.substr(0, delim_pos);
-- 
2.43.0


From b21a66cc9e8bc45542fae6718e608cda9fb1c7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:41 +0000
Subject: [PATCH 19/64] fix: a relative schema cutoff above 255 wrapped around

---
 src/mws/query/SchemaEngine.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mws/query/SchemaEngine.cpp b/src/mws/query/SchemaEngine.cpp
index 0744cef..efb4bbd 100644
--- a/src/mws/query/SchemaEngine.cpp
+++ b/src/mws/query/SchemaEngine.cpp
@@ -75,7 +75,8 @@ SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
             break;
         case RELATIVE:
             // "depth" percentages of token depth
-            cutoff = 0.01 * depth * exprsTokens[i]->getExprDepth();
+            cutoff = std::min(0.01 * depth * exprsTokens[i]->getExprDepth(),
+                              255.0);
             break;
         default:
             assert(false);
-- 
2.43.0


From 3575a232c26945dffca2ef0c244bb877ba4ec9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:51 +0000
Subject: [PATCH 20/64] fix: formulas cut at different depths shared a schema
 if their remaining tokens happened to be the same

---
 src/mws/query/SchemaEngine.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/mws/query/SchemaEngine.cpp b/src/mws/query/SchemaEngine.cpp
index efb4bbd..bca1187 100644
--- a/src/mws/query/SchemaEngine.cpp
+++ b/src/mws/query/SchemaEngine.cpp
@@ -65,7 +65,7 @@ SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
     SchemaAnswset* result = new SchemaAnswset();
 
     unordered_map<string, vector<uint32_t>> schemaGroup;
-    unordered_map<string, uint8_t> cutoffs;
+    unordered_map<string, pair<EncodedFormula, uint8_t>> reduced;
     for (size_t i = 0; i < formulae.size(); i++) {
         const EncodedFormula& expr = formulae[i];
         uint8_t cutoff;
@@ -82,16 +82,21 @@ SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
             assert(false);
         }
 
-        string hash = hashExpr(reduceFormula(expr, cutoff));
+        EncodedFormula reducedExpr = reduceFormula(expr, cutoff);
+        /* The same reduced tokens stand for different schemata if they were
+         * cut at different depths, so they are told apart by their schema. */
+        CmmlToken* root = decodeFormula(reducedExpr, cutoff);
+        string hash = root->toString();
+        delete root;
 
         auto it = schemaGroup.find(hash);
         if (it != schemaGroup.end()) {
             it->second.push_back(i);
         } else {
             schemaGroup[hash] = {(uint32_t)i};
+            // in order to decode it later
+            reduced[hash] = {reducedExpr, cutoff};
         }
-        // we need to store the cutoff for each schemata in order to decode it
-        cutoffs[hash] = cutoff;
     }
     result->total = schemaGroup.size();
 
@@ -110,9 +115,9 @@ SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
 
     result->schemata.reserve(topExpr.size());
     for (auto& p : topExpr) {
-        EncodedFormula e = unhashExpr(p.first);
+        const pair<EncodedFormula, uint8_t>& e = reduced[p.first];
         ExprSchema sch;
-        sch.root = decodeFormula(e, cutoffs[p.first]);
+        sch.root = decodeFormula(e.first, e.second);
         sch.coverage = p.second.size();
         sch.formulae = p.second;
         result->schemata.push_back(sch);
-- 
2.43.0


From a6032d12a92d120c29bf8d53c75699aa3413f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:51 +0000
Subject: [PATCH 21/64] fix: subterms replaced inside the operator of an apply
 were missing in the substitution list of a schema

---
 src/mws/daemon/SchemaQueryHandler.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index af6327a..aaed501 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -155,12 +155,6 @@ void SchemaQueryHandler::getSubstitutions(CmmlToken* exprRoot,
         return;
     }
 
-    // disregard the first child of apply
-    if (currExprTag == "apply") {
-        expr_it++;
-        schema_it++;
-    }
-
     /* we know that both exprChildren and schemaChildren have the same length,
      * so it is enough to check for one */
     while (expr_it != exprChildren.end()) {
-- 
2.43.0


From 8e3ab6b484dcdd5f96bff50f24ea7a3fc07cbbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:03 +0000
Subject: [PATCH 22/64] fix: the identifiers P and p were renamed although the
 code means to keep them

---
 src/mws/index/ExpressionEncoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index 50e30a2..16b37b7 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -147,7 +147,7 @@ MeaningId ExpressionEncoder::_getCiMeaning(const CmmlToken* token) {
     CmmlToken* tokParent = token->getParentNode();
 
     // check if we should not rename this ci
-    if ((tokMeaning == "#P") || (tokMeaning == "#p") ||
+    if ((tokMeaning == "ci#P") || (tokMeaning == "ci#p") ||
         // the content must have only 1 char:
         (tokMeaning.length() > 2 + token->getTag().length()) ||
         // make sure this is not the 1st child of apply
-- 
2.43.0


From ed705e8361bdceb64285ce9555668cc4a0c46a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:35 +0000
Subject: [PATCH 23/64] fix: inserting into a reopened disk store overwrote
 existing entries and reused document ids

---
 src/mws/dbc/LevCrawlDb.cpp   | 22 +++++++++++++++++++++-
 src/mws/dbc/LevCrawlDb.hpp   |  3 +++
 src/mws/dbc/LevFormulaDb.cpp | 17 ++++++++++++++++-
 src/mws/dbc/LevFormulaDb.hpp |  3 +++
 4 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/mws/dbc/LevCrawlDb.cpp b/src/mws/dbc/LevCrawlDb.cpp
index af154e1..25dea19 100644
--- a/src/mws/dbc/LevCrawlDb.cpp
+++ b/src/mws/dbc/LevCrawlDb.cpp
@@ -29,6 +29,10 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <sys/stat.h>
 #include <sys/types.h>
 
+#include <stdlib.h>
+
+#include <memory>
+using std::unique_ptr;
 #include <stdexcept>
 using std::runtime_error;
 #include <string>
@@ -38,6 +42,8 @@ using leveldb::DB;
 using leveldb::Options;
 using leveldb::Status;
 using leveldb::DestroyDB;
+using leveldb::ReadOptions;
+using leveldb::Iterator;
 
 #include "common/types/Parcelable.hpp"
 using common::types::ParcelAllocator;
@@ -49,7 +55,10 @@ using common::types::ParcelDecoder;
 namespace mws {
 namespace dbc {
 
-LevCrawlDb::LevCrawlDb() : mDatabase(nullptr), mNextCrawlId(CRAWLID_NULL) {}
+LevCrawlDb::LevCrawlDb()
+    : mDatabase(nullptr),
+      mNextCrawlId(CRAWLID_NULL),
+      mHasUnknownEntries(false) {}
 
 LevCrawlDb::~LevCrawlDb() { delete mDatabase; }
 
@@ -62,6 +71,7 @@ void LevCrawlDb::open(const char* path) {
     if (!status.ok()) {
         throw std::runtime_error(string(path) + " not found.");
     }
+    mHasUnknownEntries = true;
 }
 
 /** @throw runtime_error */
@@ -80,8 +90,18 @@ void LevCrawlDb::create_new(const char* path,
     }
 }
 
+void LevCrawlDb::restoreNextCrawlId() {
+    unique_ptr<Iterator> it(mDatabase->NewIterator(ReadOptions()));
+    for (it->SeekToFirst(); it->Valid(); it->Next()) {
+        CrawlId crawlId = strtoul(it->key().ToString().c_str(), nullptr, 10);
+        if (crawlId > mNextCrawlId) mNextCrawlId = crawlId;
+    }
+    mHasUnknownEntries = false;
+}
+
 /** @throw std::exception */
 CrawlId LevCrawlDb::putData(const CrawlData& crawlData) {
+    if (mHasUnknownEntries) restoreNextCrawlId();
     CrawlId crawlId = ++mNextCrawlId;
     string crawlId_str = std::to_string(crawlId);
 
diff --git a/src/mws/dbc/LevCrawlDb.hpp b/src/mws/dbc/LevCrawlDb.hpp
index 8ab954e..b1565d6 100644
--- a/src/mws/dbc/LevCrawlDb.hpp
+++ b/src/mws/dbc/LevCrawlDb.hpp
@@ -69,6 +69,9 @@ class LevCrawlDb : public CrawlDb {
  private:
     leveldb::DB* mDatabase;
     CrawlId mNextCrawlId;
+    bool mHasUnknownEntries;  // opened, but mNextCrawlId not yet restored
+
+    void restoreNextCrawlId();
 };
 
 }  // namespace dbc
diff --git a/src/mws/dbc/LevFormulaDb.cpp b/src/mws/dbc/LevFormulaDb.cpp
index cb68a7e..2f44b58 100644
--- a/src/mws/dbc/LevFormulaDb.cpp
+++ b/src/mws/dbc/LevFormulaDb.cpp
@@ -51,7 +51,8 @@ using common::types::ParcelDecoder;
 namespace mws {
 namespace dbc {
 
-LevFormulaDb::LevFormulaDb() : mDatabase(nullptr), mCounter(0) {}
+LevFormulaDb::LevFormulaDb()
+    : mDatabase(nullptr), mCounter(0), mHasUnknownEntries(false) {}
 
 LevFormulaDb::~LevFormulaDb() { delete mDatabase; }
 
@@ -64,6 +65,7 @@ void LevFormulaDb::open(const char* path) {
     if (!status.ok()) {
         throw runtime_error(status.ToString());
     }
+    mHasUnknownEntries = true;
 }
 
 /** @throw runtime_error */
@@ -81,9 +83,22 @@ void LevFormulaDb::create_new(const char* path, bool deleteIfExists) {
     }
 }
 
+void LevFormulaDb::restoreCounter() {
+    unique_ptr<Iterator> it(mDatabase->NewIterator(ReadOptions()));
+    for (it->SeekToFirst(); it->Valid(); it->Next()) {
+        // keys are <formulaId>!<counter>
+        string key = it->key().ToString();
+        uint32_t counter =
+            strtoul(key.c_str() + key.find('!') + 1, nullptr, 10);
+        if (counter > mCounter) mCounter = counter;
+    }
+    mHasUnknownEntries = false;
+}
+
 int LevFormulaDb::insertFormula(const types::FormulaId& formulaId,
                                 const CrawlId& crawlId,
                                 const types::FormulaPath& formulaPath) {
+    if (mHasUnknownEntries) restoreCounter();
     ++mCounter;
 
     std::string crawlId_str = std::to_string(crawlId);
diff --git a/src/mws/dbc/LevFormulaDb.hpp b/src/mws/dbc/LevFormulaDb.hpp
index 380a10d..af078b5 100644
--- a/src/mws/dbc/LevFormulaDb.hpp
+++ b/src/mws/dbc/LevFormulaDb.hpp
@@ -60,6 +60,9 @@ class LevFormulaDb : public FormulaDb {
  private:
     leveldb::DB* mDatabase;
     uint32_t mCounter;
+    bool mHasUnknownEntries;  // opened, but mCounter not yet restored
+
+    void restoreCounter();
 };
 
 }  // namespace dbc
-- 
2.43.0


From f7103e4b5f3ee003f5d64f6a8d25b2bad3955824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 24/64] fix: an xpath that selects a text node yielded an empty
 text

---
 src/crawler/parser/XmlParser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/crawler/parser/XmlParser.cpp b/src/crawler/parser/XmlParser.cpp
index a712e89..e3a36da 100644
--- a/src/crawler/parser/XmlParser.cpp
+++ b/src/crawler/parser/XmlParser.cpp
@@ -216,9 +216,14 @@ static xmlXPathObjectPtr getXMLNodeset(xmlDocPtr doc, const char* xpath,
 static void dumpNodeToText(const xmlNode* root, stringstream* stream,
                            MathIdDictionary* encodedMathIds) {
     stack<const xmlNode*> nodes;
-    nodes.push(root->children);
     static const char MATH_PREFIX[] = "math";
 
+    if (root->type == XML_TEXT_NODE) {
+        *stream << reinterpret_cast<char*>(root->content);
+        return;
+    }
+    nodes.push(root->children);
+
     while (!nodes.empty()) {
         const xmlNode* node = nodes.top();
         if (node == nullptr) {
-- 
2.43.0


From a17561e8734e4ebc4ed3e92649ed7bf35d1090f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 25/64] fix: docs2harvest did not escape the expression urls

---
 src/crawler/parser/MathParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index 8322189..e688aeb 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -141,7 +141,8 @@ Harvest createHarvestFromDocument(const string& path,
                        << "\"";
             expression << " mws:data_id=\"" << config.data_id << "\"";
         } else {
-            expression << "<mws:expr url=\"" << documentId << "#" << id << "\"";
+            expression << "<mws:expr url=\""
+                       << escapeXml(doc, documentId + "#" + id) << "\"";
         }
         expression << ">" << getXmlFromNode(doc, cmmlNode) << "</mws:expr>\n";
         harvest.contentMathElements.push_back(expression.str());
-- 
2.43.0


From 066551b90e931215bdad39663eeb0d2b0b48ad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:51 +0000
Subject: [PATCH 26/64] fix: formulas outside of the dumped text all got the
 number 0

---
 src/crawler/parser/MathParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index e688aeb..cfe1617 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -130,14 +130,14 @@ Harvest createHarvestFromDocument(const string& path,
         }
 
         if (config.shouldSaveData) {
-            data << "<math local_id=\"" << mathIdDictionary.get(id) << "\">"
+            data << "<math local_id=\"" << mathIdDictionary.put(id) << "\">"
                  << getEscapedXmlFromNode(doc, mathNode) << "</math>\n";
         }
         cleanContentMath(cmmlNode);
 
         stringstream expression;
         if (config.shouldSaveData) {
-            expression << "<mws:expr url=\"" << mathIdDictionary.get(id)
+            expression << "<mws:expr url=\"" << mathIdDictionary.put(id)
                        << "\"";
             expression << " mws:data_id=\"" << config.data_id << "\"";
         } else {
-- 
2.43.0


From e9bf1f126fa1b67d26fcb6df49ed72e6ca1408f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:23 +0000
Subject: [PATCH 27/64] fix: comments of HTML documents made the harvest
 malformed

---
 src/crawler/parser/MathParser.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index cfe1617..270e44f 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -180,8 +180,16 @@ static void cleanContentMath(xmlNode* node) {
     // Recurse through child nodes
     xmlNodePtr curr = node->children;
     while (curr != nullptr) {
-        cleanContentMath(curr);
-        curr = curr->next;
+        xmlNodePtr next = curr->next;
+        if (curr->type == XML_ELEMENT_NODE) {
+            cleanContentMath(curr);
+        } else if (curr->type == XML_COMMENT_NODE ||
+                   curr->type == XML_PI_NODE) {
+            // Those of HTML documents are not necessarily well-formed XML
+            xmlUnlinkNode(curr);
+            xmlFreeNode(curr);
+        }
+        curr = next;
     }
 }
 
-- 
2.43.0


From bea7a0dee7efe53cbf14b9fb4e81144caf832554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:07 +0000
Subject: [PATCH 28/64] fix: entity references in Content MathML made the
 harvest malformed

---
 src/crawler/parser/MathParser.cpp | 19 +++++++++++++++++++
 src/crawler/parser/XmlParser.cpp  | 10 +++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index 270e44f..078f165 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -25,6 +25,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
  */
 
 #include <libxml/parser.h>
+#include <libxml/parserInternals.h>
+#include <libxml/HTMLparser.h>
 #include <libxml/tree.h>
 #include <string.h>
 #include <assert.h>
@@ -164,6 +166,20 @@ void cleanupMathParser() { xmlCleanupParser(); }
 /* Local implementation                                                     */
 /*--------------------------------------------------------------------------*/
 
+/**
+ * @brief the text an undeclared entity stands for, as in HTML documents
+ */
+static xmlNode* newEntityText(const xmlNode* entityRef) {
+    const htmlEntityDesc* entity = htmlEntityLookup(entityRef->name);
+    string text = "&" + string((const char*)entityRef->name) + ";";
+    if (entity != nullptr) {
+        xmlChar utf8[8];
+        utf8[xmlCopyCharMultiByte(utf8, entity->value)] = 0;
+        text = (const char*)utf8;
+    }
+    return xmlNewDocText(entityRef->doc, BAD_CAST text.c_str());
+}
+
 /**
  * @brief remove redundant attributes from ContentMath
  * @param xmlNode
@@ -188,6 +204,9 @@ static void cleanContentMath(xmlNode* node) {
             // Those of HTML documents are not necessarily well-formed XML
             xmlUnlinkNode(curr);
             xmlFreeNode(curr);
+        } else if (curr->type == XML_ENTITY_REF_NODE) {
+            // Harvests have no DTD that declares the entity
+            xmlFreeNode(xmlReplaceNode(curr, newEntityText(curr)));
         }
         curr = next;
     }
diff --git a/src/crawler/parser/XmlParser.cpp b/src/crawler/parser/XmlParser.cpp
index e3a36da..68903d4 100644
--- a/src/crawler/parser/XmlParser.cpp
+++ b/src/crawler/parser/XmlParser.cpp
@@ -62,12 +62,20 @@ static void dumpNodeToText(const xmlNode* node, stringstream* stream,
 /* Implementation                                                           */
 /*--------------------------------------------------------------------------*/
 
+// Documents may use the entities they declare, but not include other files
+static xmlParserInputPtr noExternalEntities(const char*, const char*,
+                                            xmlParserCtxtPtr) {
+    return nullptr;
+}
+
 xmlDocPtr parseDocument(const char* content, int size) {
     xmlDocPtr doc;
 
     // Try as XHTML
+    xmlSetExternalEntityLoader(noExternalEntities);
     doc = xmlReadMemory(content, size, /* URL = */ "", "UTF-8",
-                        XML_PARSE_NOWARNING | XML_PARSE_NOERROR);
+                        XML_PARSE_NOENT | XML_PARSE_NOWARNING |
+                            XML_PARSE_NOERROR);
     if (doc != nullptr) {
         return doc;
     }
-- 
2.43.0


From 8fb3e8675f080b16e486cd072e75895cf3838407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:36 +0000
Subject: [PATCH 29/64] fix: invalid characters of HTML documents made the
 harvest malformed

---
 src/crawler/parser/MathParser.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index 078f165..ad7f73b 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -59,6 +59,7 @@ namespace crawler {
 namespace parser {
 
 static void cleanContentMath(xmlNode* node);
+static string keepXmlChars(const string& text);
 
 const char XPATH_MATHML[] = "//*[local-name()='math']";
 const char XPATH_CONTENT_MATH[] = "descendant::*[@encoding='MathML-Content']/*";
@@ -147,12 +148,12 @@ Harvest createHarvestFromDocument(const string& path,
                        << escapeXml(doc, documentId + "#" + id) << "\"";
         }
         expression << ">" << getXmlFromNode(doc, cmmlNode) << "</mws:expr>\n";
-        harvest.contentMathElements.push_back(expression.str());
+        harvest.contentMathElements.push_back(keepXmlChars(expression.str()));
     });
 
     if (config.shouldSaveData) {
         data << "</mws:data>\n";
-        harvest.dataElement = data.str();
+        harvest.dataElement = keepXmlChars(data.str());
     }
 
     xmlFreeDoc(doc);
@@ -166,6 +167,28 @@ void cleanupMathParser() { xmlCleanupParser(); }
 /* Local implementation                                                     */
 /*--------------------------------------------------------------------------*/
 
+/**
+ * @brief replace what must not occur in XML, but does in HTML documents with
+ * control characters or in other encodings
+ */
+static string keepXmlChars(const string& text) {
+    string result;
+    for (size_t i = 0; i < text.size();) {
+        int len = std::min<size_t>(4, text.size() - i);
+        int c = xmlGetUTF8Char(BAD_CAST(text.c_str() + i), &len);
+        xmlChar utf8[8];
+        if (c >= 0 && IS_CHAR(c) && xmlCopyCharMultiByte(utf8, c) == len &&
+            memcmp(utf8, text.c_str() + i, len) == 0) {
+            result.append(text, i, len);
+            i += len;
+        } else {
+            result += '?';
+            i++;
+        }
+    }
+    return result;
+}
+
 /**
  * @brief the text an undeclared entity stands for, as in HTML documents
  */
-- 
2.43.0


From 7ba2aec4af145dd31357c9c4cff0c4d09d04c035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:21 +0000
Subject: [PATCH 30/64] fix: names of HTML documents that are none in XML made
 the harvest malformed

---
 src/crawler/parser/MathParser.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index ad7f73b..707b384 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -60,6 +60,7 @@ namespace parser {
 
 static void cleanContentMath(xmlNode* node);
 static string keepXmlChars(const string& text);
+static bool isWellFormed(const string& xml);
 
 const char XPATH_MATHML[] = "//*[local-name()='math']";
 const char XPATH_CONTENT_MATH[] = "descendant::*[@encoding='MathML-Content']/*";
@@ -132,10 +133,7 @@ Harvest createHarvestFromDocument(const string& path,
             return;
         }
 
-        if (config.shouldSaveData) {
-            data << "<math local_id=\"" << mathIdDictionary.put(id) << "\">"
-                 << getEscapedXmlFromNode(doc, mathNode) << "</math>\n";
-        }
+        const string mathXml = getEscapedXmlFromNode(doc, mathNode);
         cleanContentMath(cmmlNode);
 
         stringstream expression;
@@ -148,7 +146,17 @@ Harvest createHarvestFromDocument(const string& path,
                        << escapeXml(doc, documentId + "#" + id) << "\"";
         }
         expression << ">" << getXmlFromNode(doc, cmmlNode) << "</mws:expr>\n";
-        harvest.contentMathElements.push_back(keepXmlChars(expression.str()));
+        const string expressionXml = keepXmlChars(expression.str());
+        if (!isWellFormed(expressionXml)) {
+            PRINT_WARN("Discarding math element #%s with invalid names\n",
+                       id.c_str());
+            return;
+        }
+        harvest.contentMathElements.push_back(expressionXml);
+        if (config.shouldSaveData) {
+            data << "<math local_id=\"" << mathIdDictionary.put(id) << "\">"
+                 << mathXml << "</math>\n";
+        }
     });
 
     if (config.shouldSaveData) {
@@ -189,6 +197,17 @@ static string keepXmlChars(const string& text) {
     return result;
 }
 
+/**
+ * @brief HTML documents can have names that XML does not allow
+ */
+static bool isWellFormed(const string& xml) {
+    xmlDocPtr doc = xmlReadMemory(xml.c_str(), xml.size(), /* URL = */ "",
+                                  "UTF-8",
+                                  XML_PARSE_NOWARNING | XML_PARSE_NOERROR);
+    xmlFreeDoc(doc);
+    return doc != nullptr;
+}
+
 /**
  * @brief the text an undeclared entity stands for, as in HTML documents
  */
-- 
2.43.0


From f168af5d532d7c8b9ebd951e8583446767078d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:01 +0000
Subject: [PATCH 31/64] fix: harvests2json crashed on expressions without data

---
 src/crawler/harvests2json.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index f4d17f7..445ab15 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -363,6 +363,9 @@ int HarvestParser::processExpression(const CmmlToken* expression,
     HarvestEncoder encoder(_meaningDictionary);
     u_int32_t numSubExpressions = 0;
 
+    // Expressions without data belong to no document
+    if (documents.find(crawlId) == documents.end()) return 0;
+
     expression->foreachSubexpression([&](const CmmlToken* subexpression) {
         vector<encoded_token_t> encodedFormula;
         int ret = encoder.encode(_indexingOptions, subexpression,
-- 
2.43.0


From 14d0434dee2ade9531eda86a2657a64b25916162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:49 +0000
Subject: [PATCH 32/64] fix: harvests2json made up an id for formulas that are
 not in the index

---
 src/crawler/harvests2json.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index 445ab15..9f904bd 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -382,6 +382,11 @@ int HarvestParser::processExpression(const CmmlToken* expression,
                                                /* size = */ 1,
                                                /* maxTotal = */ 1);
         numSubExpressions += result->total;
+        if (result->ids.empty()) {
+            PRINT_WARN("Skipping a formula (not in the index)\n");
+            delete result;
+            return;
+        }
         auto hit = new Hit();
         FormulaId fmId = *(result->ids.begin());
         hit->uri = exprUri;
-- 
2.43.0


From 3525c2639387d700f4e2d4a539b8a2bd2d6a299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:26 +0000
Subject: [PATCH 33/64] fix: harvests2json read document data as HTML and lost
 or renamed parts of it

---
 src/crawler/harvests2json.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index 9f904bd..67c5f37 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -139,7 +139,9 @@ struct DataItems {
 };
 
 static DataItems* getDataItems(const string& content) {
-    xmlDocPtr doc = parseDocument(content.c_str(), content.size());
+    // A single root, so that it is not taken for an HTML document
+    const string xml = "<data>" + content + "</data>";
+    xmlDocPtr doc = parseDocument(xml.c_str(), xml.size());
     DataItems* dataItems = new DataItems();
     dataItems->text = getTextByXpath(doc, TEXT_XPATH);
     dataItems->id = getTextByXpath(doc, ID_XPATH);
-- 
2.43.0


From c03d78ee55981321667936f2f963774af3123620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 34/64] fix: harvests2json aborted on math elements without
 local_id

---
 src/crawler/harvests2json.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index 67c5f37..0c61a95 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -149,7 +149,10 @@ static DataItems* getDataItems(const string& content) {
     // get math node mappings
     processXpathResults(doc, MATH_XPATH, [&](xmlNode* mathNode) {
         const xmlChar* xmlId = xmlGetProp(mathNode, BAD_CAST "local_id");
-        assert(xmlId != nullptr);
+        if (xmlId == nullptr) {
+            PRINT_WARN("Skipping a math element without local_id\n");
+            return;
+        }
 
         string id((char*)xmlId);
         xmlFree((void*)xmlId);
-- 
2.43.0


From b07ae4e635072b30719332c713e53b9eb240bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:14 +0000
Subject: [PATCH 35/64] fix: crawler read beyond its list of MathML tags

---
 src/crawler/utils/MwsGetMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index 9670d62..b5da128 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -272,7 +272,7 @@ void store_mathml_tags() {
     is.seekg(0, ios::beg);
     is.read(alltags, length);
     is.close();
-    string all_tags(alltags);
+    string all_tags(alltags, length);
     delete[] alltags;
     int pos = 0;
 
-- 
2.43.0


From acc91ad024d26d40bf01bfeb0dc98f8208bfd1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:14 +0000
Subject: [PATCH 36/64] fix: crawler overran a buffer with robots.txt and
 missed rules of groups for several agents

---
 src/crawler/types/Robotstxt.cpp | 55 ++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/crawler/types/Robotstxt.cpp b/src/crawler/types/Robotstxt.cpp
index bb9e54d..173410b 100644
--- a/src/crawler/types/Robotstxt.cpp
+++ b/src/crawler/types/Robotstxt.cpp
@@ -23,13 +23,15 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
  */
 
 // System includes
+#include <strings.h>
+
 #include <string>
 #include <vector>
 #include <iostream>
+#include <sstream>
 
 // Local includes
 #include "common/utils/compiler_defs.h"
-#include "common/utils/memstream.h"
 #include "crawler/utils/Page.hpp"
 #include "Robotstxt.hpp"
 
@@ -38,6 +40,13 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 using namespace std;
 
+static string trimmed(const string& str) {
+    const char* spaces = " \t\r\n";
+    size_t first = str.find_first_not_of(spaces);
+    if (first == string::npos) return "";
+    return str.substr(first, str.find_last_not_of(spaces) - first + 1);
+}
+
 /**
  * Implementation of Robotstxt constructor
  *
@@ -53,32 +62,28 @@ Robotstxt::Robotstxt(GURL aStartUrl) {
         return;
     }
 
-    // If Our Crawler has no name
-    string userAgent = "User-agent: ";
-    string thisCrawler = "*";
-    string disallow = "Disallow: ";
-    int isInBrackets = 0;
-    FILE* stream;
-    auto robpg = new char[rob.size()];
-    strcpy(robpg, rob.c_str());
-    stream = fmemopen(robpg, rob.size(), "r");
-    const int bufmax = 1000;
-    char buf[bufmax];
-    while (fgets(buf, bufmax, stream) != nullptr) {
-        string line(buf);
-        if (line.compare(0, userAgent.size(), userAgent) == 0) {
-            if (isInBrackets)
-                isInBrackets = 0;
-            else if (line.compare(0, userAgent.size() + thisCrawler.size(),
-                                  userAgent + thisCrawler) == 0)
-                isInBrackets = 1;
-        }
-
-        if (isInBrackets && line.compare(0, disallow.size(), disallow) == 0) {
-            string dontCrawlLink = line.substr(disallow.size());
-            this->dont_allow(dontCrawlLink);
+    // Our Crawler has no name: the rules are those of the groups for all agents
+    bool isAgentLine = false;
+    bool isInGroup = false;
+    istringstream lines(rob);
+    string line;
+    while (getline(lines, line)) {
+        line = line.substr(0, line.find('#'));
+        size_t colon = line.find(':');
+        if (colon == string::npos) continue;
+        string field = trimmed(line.substr(0, colon));
+        string value = trimmed(line.substr(colon + 1));
+
+        if (strcasecmp(field.c_str(), "User-agent") == 0) {
+            if (!isAgentLine) isInGroup = false;  // first line of a new group
+            isAgentLine = true;
+            if (value == "*") isInGroup = true;
+        } else if (strcasecmp(field.c_str(), "Disallow") == 0) {
+            isAgentLine = false;
+            if (isInGroup && !value.empty()) this->dont_allow(value);
         }
     }
+
     // TODO: Crawl-Delay getter for Non-Standard robots.txt extension
 }
 
-- 
2.43.0


From cd158380dcbdbd5fc012862d4c86717fd816522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 37/64] fix: crawler took robots.txt rules for other pages than
 their path prefix

---
 src/crawler/types/Robotstxt.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/crawler/types/Robotstxt.cpp b/src/crawler/types/Robotstxt.cpp
index 173410b..8182879 100644
--- a/src/crawler/types/Robotstxt.cpp
+++ b/src/crawler/types/Robotstxt.cpp
@@ -105,21 +105,15 @@ void Robotstxt::dont_allow(string url) {
  */
 int Robotstxt::is_allowed_by_robots_txt(GURL gurl) {
     vector<GURL>::iterator it;
-    GURL c;
-    string cp;
+    const string path = gurl.PathForRequest();
 
     for (it = not_allowed.begin(); it != not_allowed.end(); ++it) {
-        c = (*it);
-        if (gurl.host() == c.host() && gurl.query() == c.query()) {
-            cp = c.path();
-            if (cp[cp.size() - 1] == '/') {
-                if (gurl.path().substr(0, cp.length() - 1) ==
-                    cp.substr(0, cp.length() - 1))
-                    return 0;
-            } else {
-                if (gurl.path().substr(0, cp.length()) == cp) return 0;
-            }
+        const string prefix = it->PathForRequest();
+        if (gurl.host() == it->host() &&
+            path.compare(0, prefix.size(), prefix) == 0) {
+            return 0;
         }
     }
+
     return 1;
 }
-- 
2.43.0


From 40be9b692714e7cc45d567bef5c5ff465c731132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 38/64] fix: crawler visited a page as often as another page
 linked to it

---
 src/crawler/crawler/MwsCrawler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 0f9ad1b..9ae004e 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -158,8 +158,9 @@ void Crawler::start() {
         vector<GURL>::iterator it;
         for (it = page_links.begin(); it != page_links.end(); ++it) {
             GURL url_to_add = (*it);
-            url_queue.push(url_to_add);
-            all_urls.insert(getQueryable(url_to_add));
+            if (all_urls.insert(getQueryable(url_to_add)).second) {
+                url_queue.push(url_to_add);
+            }
         }
     }
 
-- 
2.43.0


From 5b5228338da622f3f044f196d77f90962a40e214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 39/64] fix: crawler requested its start page even if
 robots.txt excludes it

---
 src/crawler/crawler/MwsCrawler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 9ae004e..6f64a01 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -133,7 +133,9 @@ void Crawler::start() {
     int urlsCrawled = 0;
 
     all_urls.insert(getQueryable(URL_START));
-    url_queue.push(URL_START);
+    if (rtxt->is_allowed_by_robots_txt(URL_START)) {
+        url_queue.push(URL_START);
+    }
 
     while (!url_queue.empty() && urlsCrawled < MAX_URLS_TO_CRAWL) {
         // get the next URL from the queue
-- 
2.43.0


From f13bb49bcf99156060def2402b31bb8526d8bd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 40/64] fix: crawler crashed on an exclusion list with an
 invalid start url

---
 src/crawler/crawler/MwsCrawler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 6f64a01..d839151 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -112,7 +112,9 @@ void Crawler::addCrawlerCount(int cnt) {
 /**
  * Implementation of dontCrawl
  */
-void Crawler::dontCrawl(string link) { rtxt->dont_allow(link); }
+void Crawler::dontCrawl(string link) {
+    if (rtxt != nullptr) rtxt->dont_allow(link);
+}
 
 /**
  * Implementation of addDataDirectory
-- 
2.43.0


From f518ffd9344aa2026504d246c74748caf692254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:13 +0000
Subject: [PATCH 41/64] fix: crawler requested a page that breaks off several
 times

---
 src/crawler/utils/Page.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/crawler/utils/Page.cpp b/src/crawler/utils/Page.cpp
index e7d03f0..a996c0b 100644
--- a/src/crawler/utils/Page.cpp
+++ b/src/crawler/utils/Page.cpp
@@ -82,8 +82,12 @@ void Page::downloadContent() {
         PRINT_WARN("CURL: Cannot Initialize CURL\n");
         return;
     }
+    // also a page that cannot be downloaded is not requested again
+    downloadedContent = 1;
+    downloadedHeader = 1;
+
     string strUrl = getUrl();
-    auto errorstr = new char[CURL_ERROR_SIZE];
+    char errorstr[CURL_ERROR_SIZE] = "";
 
     curl_easy_setopt(curl, CURLOPT_URL, strUrl.c_str());
     curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, curlWriter);
@@ -94,10 +98,7 @@ void Page::downloadContent() {
     curl_easy_setopt(curl, CURLOPT_CONNECTTIMEOUT, 100);
     curl_easy_setopt(curl, CURLOPT_ERRORBUFFER, errorstr);
 
-    if (curl_easy_perform(curl) == 0) {
-        downloadedContent = 1;
-        downloadedHeader = 1;
-    } else
+    if (curl_easy_perform(curl) != 0)
         PRINT_WARN("CURL: Cannot Download page because: \n  %s \n", errorstr);
 
     curl_easy_cleanup(curl);
-- 
2.43.0


From aa2c9e6056c153de3d21e3d4fcd77224819a2d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:13 +0000
Subject: [PATCH 42/64] fix: files were loaded whose name, not extension, ends
 like the harvest extension

---
 src/mws/index/IndexBuilder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mws/index/IndexBuilder.cpp b/src/mws/index/IndexBuilder.cpp
index 124d8f7..226ae4d 100644
--- a/src/mws/index/IndexBuilder.cpp
+++ b/src/mws/index/IndexBuilder.cpp
@@ -135,6 +135,8 @@ uint64_t loadHarvests(IndexBuilder* indexBuilder,
                       const HarvesterConfiguration& config) {
     uint64_t numExpressions = 0;
     FILE* logFile = nullptr;
+    string suffix = config.fileExtension;
+    if (!suffix.empty() && suffix[0] != '.') suffix = "." + suffix;
 
     if (config.statisticsLogFile != "") {
         logFile = fopen(config.statisticsLogFile.c_str(), "w");
@@ -153,7 +155,7 @@ uint64_t loadHarvests(IndexBuilder* indexBuilder,
         common::utils::FileCallback fileCallback =
             [&](const std::string & path, const std::string & prefix) {
             UNUSED(prefix);
-            if (common::utils::hasSuffix(path, config.fileExtension)) {
+            if (common::utils::hasSuffix(path, suffix)) {
                 PRINT_LOG("Loading %s... ", path.c_str());
                 int fd = open(path.c_str(), O_RDONLY);
                 if (fd < 0) {
-- 
2.43.0


From 970ded4cef03b6dc862b415d5e4aba6654ec6592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:18 +0000
Subject: [PATCH 43/64] fix: a query starting with a variable or range crashed
 on an empty index

---
 src/mws/index/IndexIterator.hpp | 4 +++-
 src/mws/query/SearchContext.cpp | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mws/index/IndexIterator.hpp b/src/mws/index/IndexIterator.hpp
index 1a14660..ede25cf 100644
--- a/src/mws/index/IndexIterator.hpp
+++ b/src/mws/index/IndexIterator.hpp
@@ -63,7 +63,9 @@ class IndexIterator {
 
     typename Accessor::Node* next() {
         if (_backtrackIterators.empty()) {  // add first branch
-            _push(Accessor::getChildrenIterator(_root));
+            auto firstIterator = Accessor::getChildrenIterator(_root);
+            if (!firstIterator.isValid()) return nullptr;  // empty index
+            _push(firstIterator);
         } else {  // or find first unexplored branch
             while (!_backtrackIterators.back().hasNext()) {
                 _pop();
diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index 3dc376b..25f296d 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -129,6 +129,10 @@ struct RangeCtxt : public BacktrackCtxt<Accessor> {
         // heap-allocated because there is no default constructor
         iterator.reset(new typename Accessor::Iterator(
             Accessor::getChildrenIterator(root)));
+        if (!iterator->isValid()) {  // empty index
+            this->isSolved = false;
+            return nullptr;
+        }
 
         encoded_token_t tok = Accessor::getToken(*iterator);
         while (!validSubst(tok) && iterator->hasNext()) {
-- 
2.43.0


From aed286d1f4a526e4122044bb8210b7c4aed84215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:18 +0000
Subject: [PATCH 44/64] fix: crawler overwrote harvests it stored in the same
 second

---
 src/crawler/crawler/MwsCrawler.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index d839151..ec8b150 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -31,6 +31,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <vector>
 #include <queue>
 #include <set>
+#include <errno.h>
 #include <unistd.h>
 #include <time.h>
 #include <sstream>
@@ -209,15 +210,19 @@ void Crawler::run(SharedQueue* sq, const char* dataDir) {
  */
 void Crawler::storeMath(const char* xml) {
     stringstream strs;
-    strs << data_directory << "/harvest" << time(nullptr) << ".xml";
-    string fileName;
-    strs >> fileName;
-    FILE* f = fopen(fileName.c_str(), "w");
+    strs << data_directory << "/harvest" << time(nullptr);
+    string fileName = strs.str() + ".xml";
+    // harvests stored within the same second get files of their own
+    FILE* f = fopen(fileName.c_str(), "wx");
+    for (int i = 1; f == nullptr && errno == EEXIST; i++) {
+        fileName = strs.str() + "_" + to_string(i) + ".xml";
+        f = fopen(fileName.c_str(), "wx");
+    }
     if (f == nullptr) {
         cerr << "Cannot open harvest file: " << fileName << endl;
         return;
     }
-    fwrite(xml, strlen(xml), sizeof(char), f);
+    fwrite(xml, sizeof(char), strlen(xml), f);
     fclose(f);
 }
 
-- 
2.43.0


From e9c137e17cd204e6b2d137b822594981c1932714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:18 +0000
Subject: [PATCH 45/64] fix: crawler read its queue of requests without the
 lock

---
 src/crawler/crawler/MwsCrawler.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index ec8b150..46a8f0a 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -183,16 +183,15 @@ void Crawler::start() {
  */
 void Crawler::run(SharedQueue* sq, const char* dataDir) {
     while (true) {
+        pthread_mutex_lock(&sq->lock);
         while ((*sq).sharedQueue.empty()) {
+            pthread_mutex_unlock(&sq->lock);
             sleep(1);  // TODO
+            pthread_mutex_lock(&sq->lock);
         }
-
         QueueNode qNode = (*sq).sharedQueue.front();
-
-        pthread_mutex_lock(&sq->lock);
         (*sq).sharedQueue.pop();
         pthread_mutex_unlock(&sq->lock);
-
         Crawler newCrawler;
 
         newCrawler.addURLStart(qNode.urlstart);
-- 
2.43.0


From 82ef86fea52d0d862922e4830b327f553b4e026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:23 +0000
Subject: [PATCH 46/64] fix: crawler lost all formulas after a self-closing,
 unclosed or stray math tag

---
 src/crawler/utils/MwsGetMath.cpp | 138 ++++++++++++++-----------------
 1 file changed, 61 insertions(+), 77 deletions(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index b5da128..1511e54 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -61,92 +61,76 @@ std::set<std::string> mathml_tags;
  */
 vector<pair<string, string> > get_math_blocks(string html) {
     store_mathml_tags();
-    int pos = 0, sz = html.size();
-    vector<pair<int, int> > allpos;
-    string matho = "<math";
-    string mathc = "</math>";
-
-    // finds all opening math tags and stores starting position in all pos
-    while (1) {
-        size_t oc = html.find(matho, pos);
-        if (oc == string::npos) break;
-        pos = oc + matho.size();
-        allpos.push_back(make_pair(oc, 1));
-        // check whether the tag closes by itself
-        while (1) {
-            if (pos == sz) break;
-            if (html[pos] == '>') break;
-            if (html[pos] == '/' && (pos + 1) < sz && html[pos + 1] == '>') {
-                allpos.push_back(make_pair(pos, -1));
-                pos = pos + 2;
+    size_t pos = 0;
+    const string matho = "<math";
+    const string mathc = "</math>";
+    vector<size_t> opened;
+    vector<pair<size_t, size_t> > blocks;  // outermost math elements
+
+    // a closing tag belongs to the last tag that is open; opening tags which
+    // are never closed and closing tags of nothing are skipped
+    while ((pos = html.find('<', pos)) != string::npos) {
+        size_t stop = string::npos;
+        if (html.compare(pos, matho.size(), matho) == 0 &&
+            strchr(" \t\r\n/>", html[pos + matho.size()]) != nullptr) {
+            opened.push_back(pos);
+            pos = html.find('>', pos);
+            if (pos == string::npos) break;
+            if (html[pos - 1] == '/') stop = pos + 1;  // closes by itself
+        } else if (html.compare(pos, mathc.size(), mathc) == 0) {
+            stop = pos + mathc.size();
+        }
+        if (stop != string::npos && !opened.empty()) {
+            while (!blocks.empty() && blocks.back().first > opened.back()) {
+                blocks.pop_back();
             }
-            ++pos;
+            blocks.push_back(make_pair(opened.back(), stop));
+            opened.pop_back();
         }
+        ++pos;
     }
-    pos = 0;
-
-    // finds all closing math tags and stores starting position in allpos
-    while (1) {
-        size_t oc = html.find(mathc, pos);
-        if (oc == string::npos) break;
-        pos = oc + mathc.size();
-        allpos.push_back(make_pair(oc, -1));
-    }
-    sort(allpos.begin(), allpos.end());
-
-    // for (int i = 0; i < allpos.size(); ++i) cout << allpos[i].first << " " <<
-    // allpos[i].second << endl;
 
     vector<pair<string, string> > ans;
 
     // extract math content and add namespaces to mathml tags
 
-    int lpos = 0, val = 0;
-    for (int i = 0; (unsigned int)i < allpos.size(); ++i) {
-        val += allpos[i].second;
-        if (val == 0) {
-            string nstr;
-            int start = allpos[lpos].first;
-            int stop = allpos[i].first + mathc.size();
-            if (html[allpos[i].first] == '/')
-                stop = allpos[i].first +
-                       2;  // the case when the tag closes by itself
-
-            for (int j = start; j < stop; ++j)
-                if (html[j] != '<')
-                    nstr.push_back(html[j]);
-                else {
-                    string g;
-                    int k = j + 1;
-                    if (html[k] == '/') {
-                        g.push_back(html[k]);
-                        ++k;
-                    }
-                    while (k < stop && islower(html[k])) {
-                        g.push_back(html[k]);
-                        ++k;
-                    }
-                    if (mathml_tags.find(g) != mathml_tags.end()) {
-                        if (g[0] == '/') {
-                            nstr = nstr + "</m:";
-                            ++j;
-                        } else
-                            nstr = nstr + "<m:";
-                    } else
-                        nstr.push_back(html[j]);
+    for (size_t i = 0; i < blocks.size(); ++i) {
+        string nstr;
+        size_t start = blocks[i].first;
+        size_t stop = blocks[i].second;
+
+        for (size_t j = start; j < stop; ++j)
+            if (html[j] != '<')
+                nstr.push_back(html[j]);
+            else {
+                string g;
+                size_t k = j + 1;
+                if (html[k] == '/') {
+                    g.push_back(html[k]);
+                    ++k;
                 }
-            lpos = i + 1;
-
-            // check whether formula has an id, save it and return it
-            string id;
-            size_t we = nstr.find(">");
-            size_t wid = nstr.find(" id=");
-            if (wid != string::npos && wid < we)
-                for (int j = wid + 5; nstr[j] != '"'; ++j)
-                    id.push_back(nstr[j]);
-
-            ans.push_back(make_pair(nstr, id));
-        }
+                while (k < stop && islower(html[k])) {
+                    g.push_back(html[k]);
+                    ++k;
+                }
+                if (mathml_tags.find(g) != mathml_tags.end()) {
+                    if (g[0] == '/') {
+                        nstr += "</m:";
+                        ++j;
+                    } else
+                        nstr += "<m:";
+                } else
+                    nstr.push_back(html[j]);
+            }
+        // check whether formula has an id, save it and return it
+        string id;
+        size_t we = nstr.find(">");
+        size_t wid = nstr.find(" id=");
+        if (wid != string::npos && wid < we)
+            for (int j = wid + 5; nstr[j] != '"'; ++j)
+                id.push_back(nstr[j]);
+
+        ans.push_back(make_pair(nstr, id));
     }
 
     return ans;
-- 
2.43.0


From 5afb9f22c086f9ff4faf4346ae2da78ac488ae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 47/64] fix: crawler wrote harvests that are not well-formed,
 and overran formulas with unusual ids

---
 src/crawler/utils/MwsGetMath.cpp | 74 +++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 24 deletions(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index 1511e54..a69efe6 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -53,6 +53,49 @@ using namespace mws;
 
 std::set<std::string> mathml_tags;
 
+static const char HARVEST_START[] =
+    "<?xml version=\"1.0\" ?> <mws:harvest "
+    "xmlns:m=\"http://www.w3.org/1998/Math/MathML\" "
+    "xmlns:mws=\"http://search.mathweb.org/ns\">";
+
+/*
+ * Parses the content of a harvest
+ */
+static xmlDocPtr parse_harvest_content(const string& xml) {
+    string xmlfull = HARVEST_START + xml + "</mws:harvest>";
+    return xmlParseMemory(xmlfull.c_str(), xmlfull.size());
+}
+
+/*
+ * Returns the id of a formula, or an empty string if it has none
+ */
+static string get_math_id(const string& formula) {
+    string id;
+    xmlDocPtr doc = parse_harvest_content(formula);
+    if (doc == nullptr) return id;
+
+    xmlNodePtr math = xmlFirstElementChild(xmlDocGetRootElement(doc));
+    xmlChar* value = xmlGetNoNsProp(math, BAD_CAST "id");
+    if (value != nullptr) id = reinterpret_cast<char*>(value);
+    xmlFree(value);
+    xmlFreeDoc(doc);
+
+    return id;
+}
+
+/*
+ * Returns the opening tag of an expression with the given url and id
+ */
+static string get_expr_tag(const string& url, const string& id) {
+    const string uri = id.empty() ? url : url + "#" + id;
+    xmlChar* escaped = xmlEncodeSpecialChars(nullptr, BAD_CAST uri.c_str());
+    string tag = "<mws:expr url=\"" +
+                 string(reinterpret_cast<char*>(escaped)) + "\">\n";
+    xmlFree(escaped);
+
+    return tag;
+}
+
 /*
  * Helper function for get_math_html
  *
@@ -123,12 +166,7 @@ vector<pair<string, string> > get_math_blocks(string html) {
                     nstr.push_back(html[j]);
             }
         // check whether formula has an id, save it and return it
-        string id;
-        size_t we = nstr.find(">");
-        size_t wid = nstr.find(" id=");
-        if (wid != string::npos && wid < we)
-            for (int j = wid + 5; nstr[j] != '"'; ++j)
-                id.push_back(nstr[j]);
+        string id = get_math_id(nstr);
 
         ans.push_back(make_pair(nstr, id));
     }
@@ -224,14 +262,9 @@ vector<string> get_math_html(Page& page) {
     vector<string> ret;
 
     for (it = xml.begin(); it != xml.end(); ++it) {
-        string str;
-        if (is_good_xml(it->first)) {
-            if (it->second != "")
-                str = "<mws:expr url=\"" + url + "#" + (it->second) + "\">\n" +
-                      (it->first) + "\n</mws:expr>\n";
-            else
-                str = "<mws:expr url=\"" + url + "\">\n" + (it->first) +
-                      "\n</mws:expr>\n";
+        string str = get_expr_tag(url, it->second) + it->first +
+                     "\n</mws:expr>\n";
+        if (is_good_xml(str)) {
             ret.push_back(str);
         }
     }
@@ -323,7 +356,8 @@ std::vector<std::string> get_math_xhtml(const string& xhtml,
             xmlChar* id = xmlGetProp(
                 nodeset->nodeTab[i]->parent->parent->parent, (xmlChar*)"id");
 
-            fprintf(stream, "<mws:expr url=\"%s#%s\">\n", url.c_str(), id);
+            fprintf(stream, "%s", get_expr_tag(url, id == nullptr ? "" :
+                        reinterpret_cast<char*>(id)).c_str());
             xmlElemDump(stream, doc, nodeset->nodeTab[i]);
             fprintf(stream, "</mws:expr>\n");
             fclose(stream);
@@ -371,15 +405,7 @@ vector<string> get_math(Page& page) {
  * Implementation of is_good_xml()
  */
 int is_good_xml(string xml) {
-    string xmlfull =
-        "<?xml version=\"1.0\" ?> <mws:harvest "
-        "xmlns:m=\"http://www.w3.org/1998/Math/MathML\" "
-        "xmlns:mws=\"http://search.mathweb.org/ns\">" +
-        xml + "</mws:harvest>";
-
-    int size = xmlfull.size();
-    xmlDocPtr doc = xmlParseMemory(xmlfull.c_str(), size);
-
+    xmlDocPtr doc = parse_harvest_content(xml);
     if (doc == nullptr) {
         return 0;
     }
-- 
2.43.0


From 1092fdc3173320c283271050ae3f4725d447528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 48/64] fix: crawler dropped namespace declarations of formulas
 in XHTML pages

---
 src/crawler/utils/MwsGetMath.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index a69efe6..7ed489e 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -358,7 +358,10 @@ std::vector<std::string> get_math_xhtml(const string& xhtml,
 
             fprintf(stream, "%s", get_expr_tag(url, id == nullptr ? "" :
                         reinterpret_cast<char*>(id)).c_str());
-            xmlElemDump(stream, doc, nodeset->nodeTab[i]);
+            // the copy declares the namespaces it uses
+            xmlNodePtr copy = xmlDocCopyNode(nodeset->nodeTab[i], doc, 1);
+            xmlElemDump(stream, doc, copy);
+            xmlFreeNode(copy);
             fprintf(stream, "</mws:expr>\n");
             fclose(stream);
 
-- 
2.43.0


From bc55203a9ba270840c5ebfd187023bf3e790e793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 49/64] fix: crawler read XHTML pages up to the first zero byte
 only

---
 src/crawler/utils/MwsGetMath.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index 7ed489e..e922884 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -179,10 +179,9 @@ vector<pair<string, string> > get_math_blocks(string html) {
  *
  * Implementation of get_XMLDoc
  */
-xmlDocPtr get_XMLDoc(const char* buffer) {
-    int size = strlen(buffer);
+xmlDocPtr get_XMLDoc(const string& buffer) {
     xmlDocPtr doc;
-    doc = xmlParseMemory(buffer, size);
+    doc = xmlParseMemory(buffer.data(), buffer.size());
 
     if (doc == nullptr) {
         PRINT_WARN("Document not parsed successfully. \n");
@@ -342,7 +341,7 @@ std::vector<std::string> get_math_xhtml(const string& xhtml,
 
     vector<string> harvest_exprs;
 
-    xmlDocPtr doc = get_XMLDoc(xhtml.c_str());
+    xmlDocPtr doc = get_XMLDoc(xhtml);
 
     xmlXPathObjectPtr result = get_XMLNodeset(doc, xpath);
     if (result != nullptr) {
-- 
2.43.0


From db01d47d8598a6ed73f9967e23908a7a3be38fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:11 +0000
Subject: [PATCH 50/64] fix: crawler took no formulas from pages whose server
 spells Content-Type in lower case

---
 src/crawler/utils/MwsGetMath.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index e922884..2d15b36 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -34,6 +34,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <cstring>
 #include <iostream>
 #include <fstream>
+#include <sstream>
+#include <strings.h>
 #include <libxml/parser.h>  // LIBXML2 library for XHTML parsing
 #include <libxml/HTMLparser.h>
 #include <libxml/xpath.h>
@@ -233,6 +235,24 @@ xmlXPathObjectPtr get_XMLNodeset(xmlDocPtr doc, const xmlChar* xpath) {
 // =============== IMPLEMENTATION ================
 namespace mws {
 
+/*
+ * Returns whether the header of the page states the content type
+ */
+static bool has_content_type(Page& page, const string& type) {
+    const string field = "Content-Type:";
+    istringstream lines(page.getHeader());
+    string line;
+    while (getline(lines, line)) {
+        if (strncasecmp(line.c_str(), field.c_str(), field.size()) != 0) continue;
+        size_t start = line.find_first_not_of(" \t", field.size());
+        if (start != string::npos &&
+            strncasecmp(line.c_str() + start, type.c_str(), type.size()) == 0) {
+            return true;
+        }
+    }
+    return false;
+}
+
 // ============ HTML RELATED ================
 
 /*
@@ -240,11 +260,7 @@ namespace mws {
  * returns 1 if the header says that the page is HTML
  */
 int isHTML(Page& page) {
-    string header = page.getHeader();
-
-    // Search for "Content-Type: text/html" in the header file
-    string ctype = "Content-Type: text/html";
-    return (header.find(ctype) != string::npos);
+    return has_content_type(page, "text/html");
 }
 
 /*
@@ -323,10 +339,7 @@ void store_mathml_tags() {
  * returns 1 if the header says that the page is XHTML
  */
 int isXHTML(Page& page) {
-    // Search for "Content-Type: application/xhtml+xml" in the header file
-    string ctype = "Content-Type: application/xhtml+xml";  // FIXME spaces can
-                                                           // easily break this
-    return (page.getHeader().find(ctype) != string::npos);
+    return has_content_type(page, "application/xhtml+xml");
 }
 
 /**
-- 
2.43.0


From 0241556a43dde8bba3a30c1a68564cc35cd83d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:54 +0000
Subject: [PATCH 51/64] fix: crawler daemon overran its buffers with long or
 split form values

---
 src/crawler/daemon/CrawlerDaemon.cpp | 86 +++++++++-------------------
 src/crawler/daemon/CrawlerDaemon.hpp |  9 +--
 2 files changed, 30 insertions(+), 65 deletions(-)

diff --git a/src/crawler/daemon/CrawlerDaemon.cpp b/src/crawler/daemon/CrawlerDaemon.cpp
index e5809be..720e107 100644
--- a/src/crawler/daemon/CrawlerDaemon.cpp
+++ b/src/crawler/daemon/CrawlerDaemon.cpp
@@ -91,51 +91,26 @@ static int cd_IteratePostRequest(void* coninfo_cls, enum MHD_ValueKind kind,
     UNUSED(filename);
     UNUSED(content_type);
     UNUSED(transfer_encoding);
-    UNUSED(off);
 
     struct connection_info_struct* con_info =
         (connection_info_struct*)coninfo_cls;
 
-    if (0 == strcmp(key, "urlstart")) {
-        if ((size > 0) && (size <= MAXNAMESIZE)) {
-            char* urlstart;
-            urlstart = (char*)malloc(MAXNAMESIZE);
-            if (!urlstart) return MHD_NO;
-
-            strcpy(urlstart, data);
-            con_info->urlstart = urlstart;
-        } else
-            con_info->urlstart = nullptr;
-
-        return MHD_YES;
-    }
-    if (0 == strcmp(key, "count")) {
-        if ((size > 0) && (size <= MAXNAMESIZE)) {
-            char* count;
-            count = (char*)malloc(MAXNAMESIZE);
-            if (!count) return MHD_NO;
-
-            strcpy(count, data);
-            con_info->count = count;
-        } else
-            con_info->count = nullptr;
+    if (key == nullptr) return MHD_YES;
 
-        return MHD_YES;
+    // long values are delivered in pieces
+    if (0 == strcmp(key, "urlstart")) {
+        if (off == 0) con_info->urlstart.clear();
+        con_info->urlstart.append(data, size);
+    } else if (0 == strcmp(key, "count")) {
+        if (off == 0) con_info->count.clear();
+        con_info->count.append(data, size);
+    } else if (0 == strcmp(key, "dontcrawl")) {
+        if (off == 0) con_info->dontcrawl.push_back("");
+        if (!con_info->dontcrawl.empty()) {
+            con_info->dontcrawl.back().append(data, size);
+        }
     }
-    if (0 == strcmp(key, "dontcrawl")) {
-        if ((size > 0) && (size <= MAXNAMESIZE)) {
-            char* dontcrawl;
-            dontcrawl = (char*)malloc(MAXNAMESIZE);
-            if (!dontcrawl) return MHD_NO;
-
-            strcpy(dontcrawl, data);
-            con_info->dontcrawl[con_info->dontcrawlnr] = dontcrawl;
-            con_info->dontcrawlnr++;
-        } else
-            con_info->dontcrawl[con_info->dontcrawlnr] = nullptr;
 
-        return MHD_YES;
-    }
     return MHD_YES;
 }
 
@@ -161,27 +136,25 @@ static void cd_RequestCompletedCallback(void* cls,
     if (nullptr == con_info) return;
 
     if (con_info->connectiontype == POST) {
-        if (con_info->urlstart != nullptr) {
+        if (!con_info->urlstart.empty()) {
             qNode.urlstart = con_info->urlstart;
             goodRequest = 1;
         }
-        if (con_info->count != nullptr && atoi(con_info->count))
-            qNode.count = atoi(con_info->count);
+
+        if (atoi(con_info->count.c_str()))
+            qNode.count = atoi(con_info->count.c_str());
         else
             qNode.count = -1;
-        qNode.dontcrawlnr = con_info->dontcrawlnr;
-        for (int i = 0; i < con_info->dontcrawlnr; ++i)
-            qNode.dontcrawl.push_back((string)con_info->dontcrawl[i]);
+
+        for (const string& url : con_info->dontcrawl) {
+            if (!url.empty()) qNode.dontcrawl.push_back(url);
+        }
+        qNode.dontcrawlnr = qNode.dontcrawl.size();
 
         MHD_destroy_post_processor(con_info->postprocessor);
-        if (con_info->urlstart) free(con_info->urlstart);
-        if (con_info->count) free(con_info->count);
-        for (int i = 0; i < con_info->dontcrawlnr; ++i)
-            free(con_info->dontcrawl[i]);
-        con_info->dontcrawlnr = 0;
     }
 
-    free(con_info);
+    delete con_info;
     *con_cls = nullptr;
 
     if (goodRequest)  // put Request in Queue
@@ -209,13 +182,8 @@ static int cd_AccessHandlerCallback(void* cls,
     if (nullptr == *con_cls) {
         struct connection_info_struct* con_info;
 
-        con_info = (connection_info_struct*)malloc(
-            sizeof(struct connection_info_struct));
-        if (nullptr == con_info) return MHD_NO;
-        con_info->urlstart = nullptr;
-        con_info->count = nullptr;
-        con_info->dontcrawlnr = 0;
-        con_info->dontcrawl[0] = nullptr;
+        con_info = new connection_info_struct;
+        con_info->postprocessor = nullptr;
 
         if (0 == strcmp(method, "POST")) {
             con_info->postprocessor = MHD_create_post_processor(
@@ -223,7 +191,7 @@ static int cd_AccessHandlerCallback(void* cls,
                 (void*)con_info);
 
             if (nullptr == con_info->postprocessor) {
-                free(con_info);
+                delete con_info;
                 return MHD_NO;
             }
 
@@ -250,7 +218,7 @@ static int cd_AccessHandlerCallback(void* cls,
             *upload_data_size = 0;
 
             return MHD_YES;
-        } else if (con_info->urlstart != nullptr) {
+        } else if (!con_info->urlstart.empty()) {
             return cd_SendPageThroughConnection(connection, answerpage);
         }
     }
diff --git a/src/crawler/daemon/CrawlerDaemon.hpp b/src/crawler/daemon/CrawlerDaemon.hpp
index 56e9944..1d2b74d 100644
--- a/src/crawler/daemon/CrawlerDaemon.hpp
+++ b/src/crawler/daemon/CrawlerDaemon.hpp
@@ -42,10 +42,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include "crawler/types/SharedQueue.hpp"
 
 #define POSTBUFFERSIZE  512
-#define MAXNAMESIZE     100
 #define MAXANSWERSIZE   512
 #define MAXASKPAGESIZE  4096
-#define MAXDONTCRAWLSIZE 128
 
 #define GET             0
 #define POST            1
@@ -56,10 +54,9 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 struct connection_info_struct
 {
     int connectiontype;
-    char *urlstart;
-    char *count;
-    int dontcrawlnr;
-    char *dontcrawl[MAXDONTCRAWLSIZE];
+    std::string urlstart;
+    std::string count;
+    std::vector<std::string> dontcrawl;
     struct MHD_PostProcessor *postprocessor;
 };
 
-- 
2.43.0


From 44326b090880663837dab8106e7e27945d78c399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:46 +0000
Subject: [PATCH 52/64] fix: crawler followed links with escaped ampersands to
 other pages

---
 src/crawler/utils/Page.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crawler/utils/Page.cpp b/src/crawler/utils/Page.cpp
index a996c0b..6c462e0 100644
--- a/src/crawler/utils/Page.cpp
+++ b/src/crawler/utils/Page.cpp
@@ -197,6 +197,10 @@ vector<GURL> Page::getLinks() {
         if (it->tagName() == "a") {
             it->parseAttributes();
             string relative = it->attribute("href").second;
+            for (size_t pos = relative.find("&amp;"); pos != string::npos;
+                 pos = relative.find("&amp;", pos + 1)) {
+                relative.erase(pos + 1, strlen("amp;"));
+            }
 
             GURL resolved = curr.Resolve(relative);
             if (resolved.host() == curr.host()) answer.push_back(resolved);
-- 
2.43.0


From 8cfb57d35843701a0ea45be3f153be4e40964f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:07 +0000
Subject: [PATCH 53/64] fix: crawler did not see links in upper case

---
 src/crawler/utils/Page.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crawler/utils/Page.cpp b/src/crawler/utils/Page.cpp
index 6c462e0..2973859 100644
--- a/src/crawler/utils/Page.cpp
+++ b/src/crawler/utils/Page.cpp
@@ -25,6 +25,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
  * date: 28 Oct 2012
  */
 
+#include <string.h>
+
 #include <string>
 #include <curl/curl.h>
 #include <curl/easy.h>
@@ -194,7 +196,7 @@ vector<GURL> Page::getLinks() {
     tree<HTML::Node>::iterator it = dom.begin();
     tree<HTML::Node>::iterator end = dom.end();
     for (; it != end; ++it) {
-        if (it->tagName() == "a") {
+        if (strcasecmp(it->tagName().c_str(), "a") == 0) {
             it->parseAttributes();
             string relative = it->attribute("href").second;
             for (size_t pos = relative.find("&amp;"); pos != string::npos;
-- 
2.43.0


From dd5758ada696573cddf5bdf0dd72924e96874a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:37 +0000
Subject: [PATCH 54/64] fix: the experimental query engine matched variables to
 the first child of a node only

---
 src/mws/query/engine.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index d72e77a..08ef98e 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -304,11 +304,11 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
             encoded_token_t entry_token;
             memsector_long_off_t entry_off;
             if (node_type == LONG_INTERNAL_NODE) {
-                entry_token = long_data->token;
-                entry_off = long_data->off;
+                entry_token = long_data[i].token;
+                entry_off = long_data[i].off;
             } else {
-                entry_token = data->token;
-                entry_off = data->off;
+                entry_token = data[i].token;
+                entry_off = data[i].off;
             }
             int pushed_var_tokens = 0;
             token_stack_t var_stack;
-- 
2.43.0


From 1ec247fad67ed0922283e849425353667e06fa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:35 +0000
Subject: [PATCH 55/64] fix: the experimental query engine took limitmin and
 answsize for each formula, and found no formula ids

---
 src/mws/daemon/IndexQueryHandler.cpp | 41 ++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/mws/daemon/IndexQueryHandler.cpp b/src/mws/daemon/IndexQueryHandler.cpp
index a2df29b..a92bd0a 100644
--- a/src/mws/daemon/IndexQueryHandler.cpp
+++ b/src/mws/daemon/IndexQueryHandler.cpp
@@ -90,6 +90,8 @@ struct HandlerStruct {
     MwsAnswset* result;
     types::Query* mwsQuery;
     DbQueryManager* dbQueryManager;
+    unsigned found;     // number of matches so far
+    unsigned size;      // size of the answer page
 };
 
 static result_cb_return_t result_callback(void* _ctxt, const leaf_t* leaf) {
@@ -110,12 +112,32 @@ static result_cb_return_t result_callback(void* _ctxt, const leaf_t* leaf) {
     }
     ;
 
-    dbQueryManager->query((FormulaId)leaf->formula_id,
-                          mwsQuery->attrResultLimitMin,
-                          mwsQuery->attrResultMaxSize, queryCallback);
-    result->total += leaf->num_hits;
+    const unsigned offset = mwsQuery->attrResultLimitMin;
+    const unsigned size = ctxt->size;
+    const unsigned maxTotal = mwsQuery->attrResultTotalReqNr;
+    const unsigned found = ctxt->found;
+    const unsigned hitsCount =
+        mwsQuery->options.includeHits ? leaf->num_hits : 1;
+
+    if (found < size + offset && found + hitsCount > offset) {
+        if (mwsQuery->options.includeHits) {
+            const unsigned dbOffset = offset < found ? 0 : offset - found;
+            const unsigned dbMaxSize =
+                offset < found ? size + offset - found : size;
+            dbQueryManager->query((FormulaId)leaf->formula_id, dbOffset,
+                                  dbMaxSize, queryCallback);
+        }
+        if (mwsQuery->options.includeMwsIds) {
+            result->ids.insert(leaf->formula_id);
+        }
+    }
+
+    ctxt->found += hitsCount;
+    // making sure we haven't surpassed maxTotal
+    if (ctxt->found > maxTotal) ctxt->found = maxTotal;
+    result->total = ctxt->found;
 
-    return QUERY_CONTINUE;
+    return ctxt->found < maxTotal ? QUERY_CONTINUE : QUERY_STOP;
 }
 
 GenericAnswer* IndexQueryHandler::handleQuery(Query* query) {
@@ -132,6 +154,15 @@ GenericAnswer* IndexQueryHandler::handleQuery(Query* query) {
             ctxt.result = result = new MwsAnswset();
             ctxt.mwsQuery = query;
             ctxt.dbQueryManager = _index.getDbQueryManager();
+            ctxt.found = 0;
+            const unsigned maxTotal = query->attrResultTotalReqNr;
+            const unsigned offset = query->attrResultLimitMin;
+            ctxt.size = query->attrResultMaxSize;
+            if (maxTotal <= offset) {
+                ctxt.size = 0;
+            } else if (ctxt.size > maxTotal - offset) {
+                ctxt.size = maxTotal - offset;
+            }
 
             encoded_formula_t encodedFormula;
             encodedFormula.data = encodedQuery.data(),
-- 
2.43.0


From 017043148bc4f9224aa0e2eee26d78bc888f3d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:55 +0000
Subject: [PATCH 56/64] fix: the experimental query engine overran its table of
 variables and took anonymous variables for the same

---
 src/mws/query/engine.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index 08ef98e..945a6dd 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -82,7 +82,7 @@ typedef struct query_ctxt_s {
     token_stack_t index_stack;
 
     /* var instantiations */
-    var_instantiation_t vars[VAR_ID_MAX];
+    var_instantiation_t vars[VAR_ID_MAX + 1];
     /* var solve stack */
     uint32_t solving_var_id;
 
@@ -139,7 +139,7 @@ static void query_ctxt_init(query_ctxt_t* RESTRICT query_ctxt,
     int i;
 
     // initialize variables table
-    for (i = 0; i < VAR_ID_MAX; i++) {
+    for (i = 0; i <= VAR_ID_MAX; i++) {
         query_ctxt->vars[i].solved = false;
     }
 
@@ -344,6 +344,9 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
                         continue;
                     }
                 }
+                // anonymous variables are independent of each other even if
+                // they share an id, so they are not instantiated
+                if (query_ctxt->solving_var_id >= ANON_QVAR_ID_MIN) continue;
                 // save to var_instantiation
                 var->tokens[var->num_tokens] = token;
                 var->num_tokens++;
-- 
2.43.0


From 41f7f503250bce7c87c1ec2804f517c8f2568aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:17 +0000
Subject: [PATCH 57/64] fix: variables in the harvest made the experimental
 query engine read beyond nodes and report what does not match

---
 src/mws/query/engine.c | 229 +++++++----------------------------------
 1 file changed, 37 insertions(+), 192 deletions(-)

diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index 945a6dd..8c795e9 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -79,7 +79,6 @@ typedef struct query_ctxt_s {
     token_stack_t query_stack;
     /* index iterator */
     const inode_t* curr_index_inode;
-    token_stack_t index_stack;
 
     /* var instantiations */
     var_instantiation_t vars[VAR_ID_MAX + 1];
@@ -108,9 +107,11 @@ static int process_query_token(query_ctxt_t* query_ctxt);
 
 static int match_var_to_index(query_ctxt_t* query_ctxt, uint32_t arity);
 
-static int match_var_to_query(query_ctxt_t* query_ctxt, uint32_t arity);
-
-static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack);
+/* Variables of the index only stand for themselves, like constants */
+static inline bool is_query_var(encoded_token_t token) {
+    return encoded_token_is_var(token) &&
+           encoded_token_get_id(token) >= QVAR_ID_MIN;
+}
 
 /*--------------------------------------------------------------------------*/
 /* Implementation                                                           */
@@ -152,7 +153,6 @@ static void query_ctxt_init(query_ctxt_t* RESTRICT query_ctxt,
 
     // intialize index
     query_ctxt->curr_index_inode = (inode_t*)index->root;
-    query_ctxt->index_stack.size = 0;
 
     // initialize memsector alloc
     query_ctxt->alloc = index->ms;
@@ -177,7 +177,7 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
     // otherwise get next token and find match
     encoded_token_t query_token = token_stack_pop(query);
 
-    if (encoded_token_is_var(query_token)) {  // variable query token
+    if (is_query_var(query_token)) {  // variable query token
         int var_id = encoded_token_get_id(query_token);
         if (query_ctxt->vars[var_id].solved) {  // solved
             var_instantiation_t* var = &query_ctxt->vars[var_id];
@@ -202,68 +202,31 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
 
         token_stack_push(query, query_token);
     } else {  // constant query token
-        if (!token_stack_empty(&query_ctxt->index_stack)) {  // index stack
-            encoded_token_t index_token =
-                token_stack_pop(&query_ctxt->index_stack);
-            if (encoded_token_is_var(index_token)) {  // variable index token
-                // push back query token to stack
-                token_stack_push(query, query_token);
-
-                int var_id = encoded_token_get_id(index_token);
-                query_ctxt->solving_var_id = var_id;
-                ret = match_var_to_query(query_ctxt, 1);
-                if (ret != QUERY_CONTINUE) return ret;
-            } else {  // constant index token
-                if (memcmp(&query_token, &index_token, sizeof(query_token)) ==
-                    0) {
-                    // continue
-                    ret = process_query_token(query_ctxt);
-                    if (ret != QUERY_CONTINUE) return ret;
-                }
-                // revert query stack
-                token_stack_push(query, query_token);
-            }
-            token_stack_push(&query_ctxt->index_stack, index_token);
-        } else {  // regular index
-            const inode_t* curr = query_ctxt->curr_index_inode;
-            memsector_long_off_t off;
-            if (curr->type == LONG_INTERNAL_NODE) {
-                off = inode_long_get_child((inode_long_t*)curr, query_token);
-            } else if (curr->type == INTERNAL_NODE) {
-                off = inode_get_child(curr, query_token);
-            } else {
-                assert(false);
-            }
-            if (off != MEMSECTOR_OFF_NULL) {  // move to corresponding child
-                const inode_t* child =
-                    (inode_t*)memsector_relOff2addr((char*)curr, off);
-
-                query_ctxt->curr_index_inode = child;
-
-                // continue
-                ret = process_query_token(query_ctxt);
-                if (ret != QUERY_CONTINUE) return ret;
-
-                // revert
-                query_ctxt->curr_index_inode = curr;
-
-                // revert query token before hvars processing
-                token_stack_push(query, query_token);
-
-                // hvars
-                uint32_t hvar_id_max =
-                    inode_get_max_var(query_ctxt->curr_index_inode);
-                uint32_t hvar_id;
-                for (hvar_id = 0; hvar_id < hvar_id_max; hvar_id++) {
-                    query_ctxt->solving_var_id = hvar_id;
-                    ret = match_var_to_query(query_ctxt, 1);
-                    if (ret != QUERY_CONTINUE) return ret;
-                }
-            } else {  // no child node exists
-                // revert query token
-                token_stack_push(query, query_token);
-            }
+        const inode_t* curr = query_ctxt->curr_index_inode;
+        memsector_long_off_t off;
+        if (curr->type == LONG_INTERNAL_NODE) {
+            off = inode_long_get_child((inode_long_t*)curr, query_token);
+        } else if (curr->type == INTERNAL_NODE) {
+            off = inode_get_child(curr, query_token);
+        } else {
+            assert(false);
+        }
+        if (off != MEMSECTOR_OFF_NULL) {  // move to corresponding child
+            const inode_t* child =
+                (inode_t*)memsector_relOff2addr((char*)curr, off);
+
+            query_ctxt->curr_index_inode = child;
+
+            // continue
+            ret = process_query_token(query_ctxt);
+            if (ret != QUERY_CONTINUE) return ret;
+
+            // revert
+            query_ctxt->curr_index_inode = curr;
         }
+
+        // revert query token
+        token_stack_push(query, query_token);
     }
 
     return QUERY_CONTINUE;
@@ -287,9 +250,7 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
         query_ctxt->solving_var_id = var_id;
         var->solved = false;
 
-    } else if (!token_stack_empty(&query_ctxt->index_stack)) {  // index stack
-        return match_var_to_stack(query_ctxt, &query_ctxt->index_stack);
-    } else {  // regular index
+    } else {
         uint32_t i;
         uint32_t size = query_ctxt->curr_index_inode->size;
         const encoded_token_dict_entry_t* data;
@@ -310,47 +271,12 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
                 entry_token = data[i].token;
                 entry_off = data[i].off;
             }
-            int pushed_var_tokens = 0;
-            token_stack_t var_stack;
-            var_stack.size = 0;
-            token_stack_push(&var_stack, entry_token);
-
-            while (!token_stack_empty(&var_stack)) {
-                encoded_token_t token = token_stack_pop(&var_stack);
-                if (encoded_token_is_var(token)) {  // var
-                    uint32_t var_id = encoded_token_get_id(token);
-                    // check self-referencing variable
-                    if (var_id == query_ctxt->solving_var_id) {
-                        if (token_stack_empty(&var_stack) &&
-                            var->num_tokens == 0) {
-                            // variable self references (e.g. Q1 -> H1 -> Q1)
-                            // => set as not solved and proceed
-                            break;
-                        } else {
-                            // variable is infinitely recursive
-                            // (e.g. Q1 -> f(H1) -> f(g(Q1)))
-                            // => no solution
-                            goto revert_index;
-                        }
-                    }
-                    if (query_ctxt->vars[var_id].solved) {  // solved var
-                        var_instantiation_t* solved_var =
-                            &query_ctxt->vars[var_id];
-                        // push in reverse order on stack
-                        int i;
-                        for (i = solved_var->num_tokens - 1; i >= 0; --i) {
-                            token_stack_push(&var_stack, solved_var->tokens[i]);
-                        }
-                        continue;
-                    }
-                }
-                // anonymous variables are independent of each other even if
-                // they share an id, so they are not instantiated
-                if (query_ctxt->solving_var_id >= ANON_QVAR_ID_MIN) continue;
-                // save to var_instantiation
-                var->tokens[var->num_tokens] = token;
+            // anonymous variables are independent of each other even if
+            // they share an id, so they are not instantiated
+            const bool save = query_ctxt->solving_var_id < ANON_QVAR_ID_MIN;
+            if (save) {
+                var->tokens[var->num_tokens] = entry_token;
                 var->num_tokens++;
-                pushed_var_tokens++;
             }
 
             // advance in the index
@@ -363,92 +289,11 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
             ret = match_var_to_index(query_ctxt, arity + entry_token.arity - 1);
             if (ret != QUERY_CONTINUE) return ret;
 
-        revert_index:
             // revert
-            var->num_tokens -= pushed_var_tokens;
+            if (save) var->num_tokens--;
             query_ctxt->curr_index_inode = curr;
         }
     }
 
     return QUERY_CONTINUE;
 }
-
-static int match_var_to_query(query_ctxt_t* query_ctxt, uint32_t arity) {
-    UNUSED(arity);
-    return match_var_to_stack(query_ctxt, &query_ctxt->query_stack);
-}
-
-static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack) {
-    int ret;
-    var_instantiation_t* var = &query_ctxt->vars[query_ctxt->solving_var_id];
-
-    token_stack_t tmp_rev_stack;
-    tmp_rev_stack.size = 0;
-
-    // move the var matching to a temp reverted stack
-    int arity = 1;
-    while (arity > 0) {
-        encoded_token_t token = token_stack_pop(stack);
-        arity += encoded_token_get_arity(token) - 1;
-        token_stack_push(&tmp_rev_stack, token);
-    }
-
-    // copy stack and revert
-    token_stack_t var_stack;
-    int i;
-    int size = tmp_rev_stack.size;
-    var_stack.size = size;
-    for (i = 0; i < size; ++i) {
-        var_stack.data[i] = tmp_rev_stack.data[size - 1 - i];
-    }
-
-    // simplify using solved vars and save to var_instantiation
-    bool solved = true;
-    while (!token_stack_empty(&var_stack)) {
-        encoded_token_t token = token_stack_pop(&var_stack);
-        if (encoded_token_is_var(token)) {  // var
-            uint32_t var_id = encoded_token_get_id(token);
-            // check self-referencing variable
-            if (var_id == query_ctxt->solving_var_id) {
-                if (token_stack_empty(&var_stack) && var->num_tokens == 0) {
-                    // variable self references (e.g. Q1 -> H1 -> Q1)
-                    // => set as not solved and proceed
-                    solved = false;
-                    break;
-                } else {
-                    // variable is infinitely recursive
-                    // (e.g. Q1 -> f(H1) -> f(g(Q1)))
-                    // => no solution
-                    goto revert_stack;
-                }
-            }
-            if (query_ctxt->vars[var_id].solved) {  // solved var
-                var_instantiation_t* solved_var = &query_ctxt->vars[var_id];
-                // push in reverse order on stack
-                int i;
-                for (i = solved_var->num_tokens - 1; i >= 0; --i) {
-                    token_stack_push(&var_stack, solved_var->tokens[i]);
-                }
-                continue;
-            }
-        }
-        // save to var_instantiation
-        var->tokens[var->num_tokens] = token;
-        var->num_tokens++;
-    }
-
-    // set var as solved
-    var->solved = solved;
-
-    // continue
-    ret = process_query_token(query_ctxt);
-    if (ret != QUERY_CONTINUE) return ret;
-
-revert_stack:
-    var->solved = false;
-    while (!token_stack_empty(&tmp_rev_stack)) {
-        token_stack_push(stack, token_stack_pop(&tmp_rev_stack));
-    }
-
-    return QUERY_CONTINUE;
-}
-- 
2.43.0


From 7f3b56c94e93ee02e529cd751b10631629ea8e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:31 +0000
Subject: [PATCH 58/64] fix: the experimental query engine overran its buffers
 with queries or formulas of more than 256 tokens

---
 src/mws/query/engine.c | 69 +++++++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 18 deletions(-)

diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index 8c795e9..fc2c14c 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -26,6 +26,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
  * License: GPLv3
  */
 
+#include <stdlib.h>
+
 #include "mws/query/engine.h"
 
 #include "mws/index/encoded_token.h"
@@ -35,23 +37,32 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 /* Constants                                                                */
 /*--------------------------------------------------------------------------*/
 
-#define MAX_VAR_INSTATIATION_SIZE 256
-#define MAX_QUERY_STACK_SIZE 512
+#define TOKEN_STACK_INITIAL_CAPACITY 256
 
 /*--------------------------------------------------------------------------*/
 /* Type declarations                                                        */
 /*--------------------------------------------------------------------------*/
 
+typedef struct token_stack_s {
+    encoded_token_t* data;
+    int size;
+    int capacity;
+} token_stack_t;
+
 typedef struct var_instantiation_s {
     bool solved;
-    encoded_token_t tokens[MAX_VAR_INSTATIATION_SIZE];
-    int num_tokens;
+    token_stack_t tokens;
 } var_instantiation_t;
 
-typedef struct token_stack_s {
-    encoded_token_t data[MAX_QUERY_STACK_SIZE];
-    int size;
-} token_stack_t;
+static inline void token_stack_init(token_stack_t* RESTRICT stack) {
+    stack->data = NULL;
+    stack->size = 0;
+    stack->capacity = 0;
+}
+
+static inline void token_stack_free(token_stack_t* RESTRICT stack) {
+    free(stack->data);
+}
 
 static inline encoded_token_t token_stack_pop(token_stack_t* RESTRICT stack) {
     stack->size--;
@@ -60,6 +71,13 @@ static inline encoded_token_t token_stack_pop(token_stack_t* RESTRICT stack) {
 
 static inline void token_stack_push(token_stack_t* RESTRICT stack,
                                     encoded_token_t token) {
+    if (stack->size == stack->capacity) {
+        stack->capacity = stack->capacity > 0 ? 2 * stack->capacity
+                                              : TOKEN_STACK_INITIAL_CAPACITY;
+        stack->data = (encoded_token_t*)realloc(
+            stack->data, stack->capacity * sizeof(encoded_token_t));
+        if (stack->data == NULL) abort();
+    }
     stack->data[stack->size] = token;
     stack->size++;
 }
@@ -103,6 +121,8 @@ static void query_ctxt_init(query_ctxt_t* RESTRICT query_ctxt,
                             result_callback_t result_cb,
                             void* RESTRICT result_cb_handle);
 
+static void query_ctxt_free(query_ctxt_t* RESTRICT query_ctxt);
+
 static int process_query_token(query_ctxt_t* query_ctxt);
 
 static int match_var_to_index(query_ctxt_t* query_ctxt, uint32_t arity);
@@ -125,7 +145,11 @@ int query_engine_run(index_handle_t* RESTRICT index,
 
     query_ctxt_init(&query_ctxt, index, query, result_cb, result_cb_handle);
 
-    return process_query_token(&query_ctxt);
+    int ret = process_query_token(&query_ctxt);
+
+    query_ctxt_free(&query_ctxt);
+
+    return ret;
 }
 
 /*--------------------------------------------------------------------------*/
@@ -142,13 +166,14 @@ static void query_ctxt_init(query_ctxt_t* RESTRICT query_ctxt,
     // initialize variables table
     for (i = 0; i <= VAR_ID_MAX; i++) {
         query_ctxt->vars[i].solved = false;
+        token_stack_init(&query_ctxt->vars[i].tokens);
     }
 
     // initialize query stack
     int size = query->size;
-    query_ctxt->query_stack.size = size;
+    token_stack_init(&query_ctxt->query_stack);
     for (i = 0; i < size; i++) {
-        query_ctxt->query_stack.data[size - i - 1] = query->data[i];
+        token_stack_push(&query_ctxt->query_stack, query->data[size - i - 1]);
     }
 
     // intialize index
@@ -162,6 +187,15 @@ static void query_ctxt_init(query_ctxt_t* RESTRICT query_ctxt,
     query_ctxt->result_cb_handle = result_cb_handle;
 }
 
+static void query_ctxt_free(query_ctxt_t* RESTRICT query_ctxt) {
+    int i;
+
+    for (i = 0; i <= VAR_ID_MAX; i++) {
+        token_stack_free(&query_ctxt->vars[i].tokens);
+    }
+    token_stack_free(&query_ctxt->query_stack);
+}
+
 static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
     int ret;
     token_stack_t* query = &query_ctxt->query_stack;
@@ -182,9 +216,9 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
         if (query_ctxt->vars[var_id].solved) {  // solved
             var_instantiation_t* var = &query_ctxt->vars[var_id];
             int i;
-            int size = var->num_tokens;
+            int size = var->tokens.size;
             for (i = 0; i < size; ++i) {
-                token_stack_push(query, var->tokens[size - i - 1]);
+                token_stack_push(query, var->tokens.data[size - i - 1]);
             }
 
             // continue
@@ -195,7 +229,7 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
             token_stack_pop_many(query, size);
         } else {  // unsolved
             query_ctxt->solving_var_id = var_id;
-            query_ctxt->vars[var_id].num_tokens = 0;
+            query_ctxt->vars[var_id].tokens.size = 0;
             ret = match_var_to_index(query_ctxt, 1);
             if (ret != QUERY_CONTINUE) return ret;
         }
@@ -239,7 +273,7 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
 
     if (arity == 0) {
         uint32_t var_id = query_ctxt->solving_var_id;
-        if (var->num_tokens > 0) {
+        if (var->tokens.size > 0) {
             var->solved = true;
         }
 
@@ -275,8 +309,7 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
             // they share an id, so they are not instantiated
             const bool save = query_ctxt->solving_var_id < ANON_QVAR_ID_MIN;
             if (save) {
-                var->tokens[var->num_tokens] = entry_token;
-                var->num_tokens++;
+                token_stack_push(&var->tokens, entry_token);
             }
 
             // advance in the index
@@ -290,7 +323,7 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
             if (ret != QUERY_CONTINUE) return ret;
 
             // revert
-            if (save) var->num_tokens--;
+            if (save) token_stack_pop(&var->tokens);
             query_ctxt->curr_index_inode = curr;
         }
     }
-- 
2.43.0


From 0b5041d9067b0f0545843f6fe74e2ae0c83949af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:36 +0000
Subject: [PATCH 59/64] fix: analytics aborted on indexes with renamed
 identifiers

---
 src/mws/analytics/analytics.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mws/analytics/analytics.cpp b/src/mws/analytics/analytics.cpp
index 1b34b38..b65f525 100644
--- a/src/mws/analytics/analytics.cpp
+++ b/src/mws/analytics/analytics.cpp
@@ -148,9 +148,12 @@ void CmmlTokenBuilder::pushToken(encoded_token_t encodedToken) {
 
     string meaning = _decoder.getMeaning(encodedToken.id);
     std::size_t separator_pos = meaning.find('#');
-    assert(separator_pos != std::string::npos);
-    string tag = meaning.substr(0, separator_pos);
-    string textContent = meaning.substr(separator_pos + 1);
+    string tag = "ci";  // only renamed identifiers (e.g. ~1) have no separator
+    string textContent = meaning;
+    if (separator_pos != std::string::npos) {
+        tag = meaning.substr(0, separator_pos);
+        textContent = meaning.substr(separator_pos + 1);
+    }
     token->setTag(tag);
     token->appendTextContent(textContent);
 
-- 
2.43.0


From 6ab9952d5bd356fcdb143e45c8fe0c2892352a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:30 +0000
Subject: [PATCH 60/64] fix: relative paths were looked up in / when
 daemonizing

---
 src/mws/mwsd.cpp    | 4 +++-
 src/mws/schemad.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mws/mwsd.cpp b/src/mws/mwsd.cpp
index 030718b..7b28954 100644
--- a/src/mws/mwsd.cpp
+++ b/src/mws/mwsd.cpp
@@ -156,7 +156,9 @@ int main(int argc, char* argv[]) {
     // daemon
     if (FlagParser::hasArg('d')) {
         // Daemonizing
-        ret = ::daemon(0, /* noclose = */ FlagParser::hasArg('l'));
+        // (staying in the directory to which relative paths refer)
+        ret = ::daemon(/* nochdir = */ 1,
+                       /* noclose = */ FlagParser::hasArg('l'));
         if (ret != 0) {
             fprintf(stderr, "Failed to daemonize\n");
             return EXIT_FAILURE;
diff --git a/src/mws/schemad.cpp b/src/mws/schemad.cpp
index 8e92e8d..51fa488 100644
--- a/src/mws/schemad.cpp
+++ b/src/mws/schemad.cpp
@@ -118,7 +118,9 @@ int main(int argc, char* argv[]) {
     // daemon
     if (FlagParser::hasArg('d')) {
         // Daemonizing
-        ret = ::daemon(0, /* noclose = */ FlagParser::hasArg('l'));
+        // (staying in the directory to which relative paths refer)
+        ret = ::daemon(/* nochdir = */ 1,
+                       /* noclose = */ FlagParser::hasArg('l'));
         if (ret != 0) {
             fprintf(stderr, "Failed to daemonize\n");
             return EXIT_FAILURE;
-- 
2.43.0


From 3ac7168d402e8e5469cdb0302059ed5dd778ed5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:01 +0000
Subject: [PATCH 61/64] fix: daemons ignored SIGINT and SIGTERM taken by
 another thread

---
 src/crawler/crawlerd.cpp | 7 +++++++
 src/mws/mwsd.cpp         | 7 +++++++
 src/mws/schemad.cpp      | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/src/crawler/crawlerd.cpp b/src/crawler/crawlerd.cpp
index accd50a..4de9787 100644
--- a/src/crawler/crawlerd.cpp
+++ b/src/crawler/crawlerd.cpp
@@ -27,6 +27,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <cstdlib>
 #include <iostream>
 #include <signal.h>  // C signals headers
+#include <pthread.h>
 #include <unistd.h>  // C Misc functions
 #include <stdint.h>  // C standard integer types
 
@@ -50,8 +51,13 @@ struct CrawlerInfo {
 
 // sigQuit is the Flag that tells us to terminate or not
 static volatile sig_atomic_t sigQuit = 0;
+static pthread_t mainThread;
 static void catch_sigint(int sig) {
     if (sig == SIGINT || sig == SIGTERM) sigQuit = 1;
+    // any thread may get the signal, but the main thread waits for it
+    if (!pthread_equal(pthread_self(), mainThread)) {
+        pthread_kill(mainThread, sig);
+    }
 }
 
 static void* startCrawler(void* dataPtr) {
@@ -119,6 +125,7 @@ int main(int argc, char* argv[]) {
     }
 
     // Preparing the Signal Action
+    mainThread = pthread_self();
     sa.sa_handler = catch_sigint;
     sigemptyset(&sa.sa_mask);
     sa.sa_flags = 0;
diff --git a/src/mws/mwsd.cpp b/src/mws/mwsd.cpp
index 7b28954..b2ec483 100644
--- a/src/mws/mwsd.cpp
+++ b/src/mws/mwsd.cpp
@@ -29,6 +29,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <stdlib.h>
 #include <unistd.h>
 #include <signal.h>
+#include <pthread.h>
 
 #include <memory>
 using std::unique_ptr;
@@ -61,6 +62,7 @@ using mws::parser::initxmlparser;
 #include "build-gen/config.h"
 
 static volatile sig_atomic_t shouldQuit = 0;
+static pthread_t mainThread;
 unique_ptr<Daemon> mwsDaemon;
 
 static void catch_sig(int sig);
@@ -240,6 +242,10 @@ static void catch_sig(int sig) {
     case SIGINT:
     case SIGTERM:
         shouldQuit = 1;
+        // any thread may get the signal, but the main thread waits for it
+        if (!pthread_equal(pthread_self(), mainThread)) {
+            pthread_kill(mainThread, sig);
+        }
         break;
     case SIGSEGV:
     case SIGABRT:
@@ -265,6 +271,7 @@ static void setup_signals() {
     struct sigaction sa;
     memset(&sa, 0, sizeof(struct sigaction));
 
+    mainThread = pthread_self();
     sa.sa_handler = catch_sig;
     sigaction(SIGINT, &sa, nullptr);
     sigaction(SIGTERM, &sa, nullptr);
diff --git a/src/mws/schemad.cpp b/src/mws/schemad.cpp
index 51fa488..46005ab 100644
--- a/src/mws/schemad.cpp
+++ b/src/mws/schemad.cpp
@@ -29,6 +29,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <stdlib.h>
 #include <unistd.h>
 #include <signal.h>
+#include <pthread.h>
 
 #include <memory>
 using std::unique_ptr;
@@ -53,6 +54,7 @@ using mws::parser::initxmlparser;
 #include "build-gen/config.h"
 
 static volatile sig_atomic_t shouldQuit = 0;
+static pthread_t mainThread;
 unique_ptr<Daemon> mwsDaemon;
 
 static void catch_sig(int sig);
@@ -161,6 +163,10 @@ static void catch_sig(int sig) {
     case SIGINT:
     case SIGTERM:
         shouldQuit = 1;
+        // any thread may get the signal, but the main thread waits for it
+        if (!pthread_equal(pthread_self(), mainThread)) {
+            pthread_kill(mainThread, sig);
+        }
         break;
     case SIGSEGV:
     case SIGABRT:
@@ -183,6 +189,7 @@ static void setup_signals() {
     struct sigaction sa;
     memset(&sa, 0, sizeof(struct sigaction));
 
+    mainThread = pthread_self();
     sa.sa_handler = catch_sig;
     sigaction(SIGINT, &sa, nullptr);
     sigaction(SIGTERM, &sa, nullptr);
-- 
2.43.0


From ae300e5be9ccbab53d5b2c81f5ea25cc0453d028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:49 +0000
Subject: [PATCH 62/64] fix: crawlerd lost everything when its data directory
 did not exist

---
 src/crawler/crawlerd.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/crawler/crawlerd.cpp b/src/crawler/crawlerd.cpp
index 4de9787..88bcf2b 100644
--- a/src/crawler/crawlerd.cpp
+++ b/src/crawler/crawlerd.cpp
@@ -36,6 +36,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include "crawler/types/SharedQueue.hpp"
 #include "crawler/crawler/MwsCrawler.hpp"
 #include "common/utils/FlagParser.hpp"
+#include "common/utils/util.hpp"
 #include "common/thread/ThreadWrapper.hpp"
 
 #include "build-gen/config.h"
@@ -102,6 +103,14 @@ int main(int argc, char* argv[]) {
     if (FlagParser::hasArg('d')) {
         dataDir = dataDir + "/" + (FlagParser::getArg('d'));
     }
+    try {
+        create_directory(HARVESTFILES_PATH);
+        create_directory(dataDir);
+    }
+    catch (const exception& e) {
+        fprintf(stderr, "%s\n", e.what());
+        exit(EXIT_FAILURE);
+    }
 
     // Initialize Thread
     ret = ThreadWrapper::init();
-- 
2.43.0


From 5a1f867614c6feff4254e6f85e0ddc983485ea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:43 +0000
Subject: [PATCH 63/64] fix: symbols beyond the 2^24th shared the ids of others

---
 src/mws/index/ExpressionEncoder.cpp | 11 ++++++++---
 src/mws/index/encoded_token.h       |  2 ++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index 16b37b7..9c8110d 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -118,14 +118,19 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
                 return -1;
             }
             encoded_token.arity = token->getArity();
+            MeaningId id;
             if (config.renameCi && token->getTag() == "ci") {
-                encoded_token.id = _getCiMeaning((token));
+                id = _getCiMeaning((token));
             } else {
-                encoded_token.id = _getConstantEncoding(token->getMeaning());
+                id = _getConstantEncoding(token->getMeaning());
             }
-            if (encoded_token.id == MeaningDictionary::KEY_NOT_FOUND) {
+            if (id == MeaningDictionary::KEY_NOT_FOUND) {
+                rv = -1;
+            } else if (id > ENC_TOK_MAX_ID) {
+                PRINT_WARN("Too many different symbols\n");
                 rv = -1;
             }
+            encoded_token.id = id;
         }
         encodedFormula->push_back(encoded_token);
 
diff --git a/src/mws/index/encoded_token.h b/src/mws/index/encoded_token.h
index e6bcdab..99bc6e0 100644
--- a/src/mws/index/encoded_token.h
+++ b/src/mws/index/encoded_token.h
@@ -44,6 +44,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 /* We are using 8 bits to hold the arity. A cerror might have a higher arity */
 #define ENC_TOK_MAX_ARITY 255
+/* and 24 bits to hold the id */
+#define ENC_TOK_MAX_ID 0xffffff
 
 #define HVAR_ID_MIN 1
 #define HVAR_ID_MAX 32
-- 
2.43.0


From cc1acfee8e6843971536763cff3babfa236e71b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:17 +0000
Subject: [PATCH 64/64] fix: harvests2json mixed up or crashed on formulas with
 variables or ranges

---
 src/crawler/harvests2json.cpp | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index 0c61a95..7ec8a02 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -81,17 +81,11 @@ using mws::index::ExpressionEncoder;
 #include "mws/types/CmmlToken.hpp"
 using mws::types::CmmlToken;
 using mws::types::TokenCallback;
-#include "mws/types/MwsAnswset.hpp"
-using mws::MwsAnswset;
-#include "mws/types/Query.hpp"
-using mws::types::Query;
 #include "mws/dbc/LevFormulaDb.hpp"
 using mws::dbc::FormulaDb;
 using mws::dbc::LevFormulaDb;
 #include "mws/dbc/CrawlDb.hpp"
 using mws::dbc::CrawlId;
-#include "mws/query/SearchContext.hpp"
-using mws::query::SearchContext;
 #include "mws/types/FormulaPath.hpp"
 using mws::types::FormulaId;
 
@@ -333,7 +327,6 @@ class HarvestParser : public HarvestProcessor {
     MeaningDictionary* _meaningDictionary;
     ExpressionEncoder::Config _indexingOptions;
     CrawlId _idCounter;
-    Query::Options _queryOptions;
     /* each CrawlId uniquely identifies a document */
     map<CrawlId, ParseResult*> documents;
 };
@@ -344,9 +337,7 @@ HarvestParser::HarvestParser(IndexAccessor::Index* index,
     : _index(index),
       _meaningDictionary(meaningDictionary),
       _indexingOptions(std::move(indexingOptions)),
-      _idCounter(0) {
-    _queryOptions.includeHits = false;
-}
+      _idCounter(0) {}
 
 vector<ParseResult*> HarvestParser::getParseResults() {
     vector<ParseResult*> results;
@@ -379,27 +370,23 @@ int HarvestParser::processExpression(const CmmlToken* expression,
             PRINT_WARN("Skipping a formula (could not encode)\n");
             return;
         }
-        MwsAnswset* result;
-        SearchContext ctxt(encodedFormula, _queryOptions);
-        result = ctxt.getResult<IndexAccessor>(_index,
-                                               /* dbQueryManager = */ nullptr,
-                                               /* offset = */ 0,
-                                               /* size = */ 1,
-                                               /* maxTotal = */ 1);
-        numSubExpressions += result->total;
-        if (result->ids.empty()) {
-            PRINT_WARN("Skipping a formula (not in the index)\n");
-            delete result;
-            return;
+        // Not a search: variables and ranges in a harvest stand for themselves
+        IndexAccessor::Node* node = IndexAccessor::getRootNode(_index);
+        for (const encoded_token_t& token : encodedFormula) {
+            node = IndexAccessor::getChild(_index, node, token);
+            if (node == nullptr) {
+                PRINT_WARN("Skipping a formula (not in the index)\n");
+                return;
+            }
         }
+        numSubExpressions++;
+        FormulaId fmId = IndexAccessor::getFormulaId(node);
         auto hit = new Hit();
-        FormulaId fmId = *(result->ids.begin());
         hit->uri = exprUri;
         hit->xpath = subexpression->getXpath();
 
         ParseResult* doc = documents[crawlId];
         (doc->idMappings[fmId]).push_back(hit);
-        delete result;
     });
 
     return numSubExpressions;
-- 
2.43.0

