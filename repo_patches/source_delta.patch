From f2b402e3a7f86fcd94884d144887defd50fe20b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 01/76] fix: keep page header fields from overlapping the first
 record

---
 lib/Distribution/embedDB.c | 8 ++++++--
 src/embedDB/embedDB.c      | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index a60e217..5bf7cbe 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -607,11 +607,15 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
-        state->headerSize += state->bitmapSize;
     }
 
+    /* The bitmap is stored in the header of every data page whether or not it is also copied to an index file */
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
+        state->headerSize += state->bitmapSize;
+
+    /* The min and max values have a fixed location in the header */
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
-        state->headerSize += state->keySize * 2 + state->dataSize * 2;
+        state->headerSize = EMBEDDB_MIN_OFFSET + state->keySize * 2 + state->dataSize * 2;
 
     /* Flags to show that these values have not been initalized with actual data yet */
     state->bufferedPageId = -1;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 5e6b43f..51a5ce6 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -183,11 +183,15 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
-        state->headerSize += state->bitmapSize;
     }
 
+    /* The bitmap is stored in the header of every data page whether or not it is also copied to an index file */
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
+        state->headerSize += state->bitmapSize;
+
+    /* The min and max values have a fixed location in the header */
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
-        state->headerSize += state->keySize * 2 + state->dataSize * 2;
+        state->headerSize = EMBEDDB_MIN_OFFSET + state->keySize * 2 + state->dataSize * 2;
 
     /* Flags to show that these values have not been initalized with actual data yet */
     state->bufferedPageId = -1;
-- 
2.43.0


From f15688c315434b45d57d3b24cf4aff9d6a7a746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 02/76] fix: invalidate the read buffers when the page they
 hold is rewritten or erased

---
 lib/Distribution/embedDB.c | 38 ++++++++++++++++++++++++++++++++++++--
 src/embedDB/embedDB.c      | 38 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 72 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 5bf7cbe..eefd4cd 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1579,6 +1579,9 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
         eraseStartingPage = eraseEndingPage % state->numDataPages;
     }
 
+    /* The page in the read buffer may be one that was just erased */
+    state->bufferedPageId = -1;
+
     /* shift min data page if needed */
     if (haveWrapped) {
         /* Flag the pages as usable to EmbedDB */
@@ -2441,6 +2444,9 @@ id_t writePage(embedDBState *state, void *buffer) {
             return -1;
         }
 
+        /* The page in the read buffer may be one that was just erased */
+        state->bufferedPageId = -1;
+
         /* Flag the pages as usable to EmbedDB */
         state->numAvailDataPages += state->eraseSizeInPages;
         state->minDataPageId += state->eraseSizeInPages;
@@ -2451,6 +2457,10 @@ id_t writePage(embedDBState *state, void *buffer) {
         }
     }
 
+    /* The read buffer must not keep the previous contents of this page */
+    if (state->bufferedPageId == physicalPageNum)
+        state->bufferedPageId = -1;
+
     /* Seek to page location in file */
     int32_t val = state->fileInterface->write(buffer, physicalPageNum, state->pageSize, state->dataFile);
     if (val == 0) {
@@ -2507,6 +2517,10 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         }
     }
 
+    /* The read buffer must not keep the previous contents of this page */
+    if (state->bufferedPageId == state->nextRLCPhysicalPageLocation)
+        state->bufferedPageId = -1;
+
     /* Write temporary page to storage */
     int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
     if (!writeSuccess) {
@@ -2576,6 +2590,10 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         state->minIndexPageId += state->eraseSizeInPages;
     }
 
+    /* The read buffer must not keep the previous contents of this page */
+    if (state->bufferedIndexPageId == physicalPageNumber)
+        state->bufferedIndexPageId = -1;
+
     /* Seek to page location in file */
     int32_t val = state->fileInterface->write(buffer, physicalPageNumber, state->pageSize, state->indexFile);
     if (val == 0) {
@@ -2631,6 +2649,10 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
     void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     memcpy(buf, &state->nextVarPageId, sizeof(id_t));
 
+    // The read buffer must not keep the previous contents of this page
+    if (state->bufferedVarPage == physicalPageId)
+        state->bufferedVarPage = -1;
+
     // Write to file
     uint32_t val = state->fileInterface->write(buffer, physicalPageId, state->pageSize, state->varFile);
     if (val == 0) {
@@ -2658,6 +2680,8 @@ void readToWriteBuf(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page from storage
+    state->bufferedPageId = -1;
 }
 
 /**
@@ -2671,6 +2695,8 @@ void readToWriteBufVar(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page from storage
+    state->bufferedVarPage = -1;
 }
 
 /**
@@ -2690,8 +2716,11 @@ int8_t readPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer 1 */
-    if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile))
+    if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile)) {
+        /* The contents of the read buffer are undefined after a failed read */
+        state->bufferedPageId = -1;
         return -1;
+    }
 
     state->numReads++;
     state->bufferedPageId = pageNum;
@@ -2715,8 +2744,11 @@ int8_t readIndexPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer */
-    if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile))
+    if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile)) {
+        /* The contents of the read buffer are undefined after a failed read */
+        state->bufferedIndexPageId = -1;
         return -1;
+    }
 
     state->numIdxReads++;
     state->bufferedIndexPageId = pageNum;
@@ -2741,6 +2773,8 @@ int8_t readVariablePage(embedDBState *state, id_t pageNum) {
 
     // Read in one page worth of data
     if (state->fileInterface->read(buf, pageNum, state->pageSize, state->varFile) == 0) {
+        // The contents of the read buffer are undefined after a failed read
+        state->bufferedVarPage = -1;
         return -1;
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 51a5ce6..369a317 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1155,6 +1155,9 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
         eraseStartingPage = eraseEndingPage % state->numDataPages;
     }
 
+    /* The page in the read buffer may be one that was just erased */
+    state->bufferedPageId = -1;
+
     /* shift min data page if needed */
     if (haveWrapped) {
         /* Flag the pages as usable to EmbedDB */
@@ -2017,6 +2020,9 @@ id_t writePage(embedDBState *state, void *buffer) {
             return -1;
         }
 
+        /* The page in the read buffer may be one that was just erased */
+        state->bufferedPageId = -1;
+
         /* Flag the pages as usable to EmbedDB */
         state->numAvailDataPages += state->eraseSizeInPages;
         state->minDataPageId += state->eraseSizeInPages;
@@ -2027,6 +2033,10 @@ id_t writePage(embedDBState *state, void *buffer) {
         }
     }
 
+    /* The read buffer must not keep the previous contents of this page */
+    if (state->bufferedPageId == physicalPageNum)
+        state->bufferedPageId = -1;
+
     /* Seek to page location in file */
     int32_t val = state->fileInterface->write(buffer, physicalPageNum, state->pageSize, state->dataFile);
     if (val == 0) {
@@ -2083,6 +2093,10 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         }
     }
 
+    /* The read buffer must not keep the previous contents of this page */
+    if (state->bufferedPageId == state->nextRLCPhysicalPageLocation)
+        state->bufferedPageId = -1;
+
     /* Write temporary page to storage */
     int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
     if (!writeSuccess) {
@@ -2152,6 +2166,10 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         state->minIndexPageId += state->eraseSizeInPages;
     }
 
+    /* The read buffer must not keep the previous contents of this page */
+    if (state->bufferedIndexPageId == physicalPageNumber)
+        state->bufferedIndexPageId = -1;
+
     /* Seek to page location in file */
     int32_t val = state->fileInterface->write(buffer, physicalPageNumber, state->pageSize, state->indexFile);
     if (val == 0) {
@@ -2207,6 +2225,10 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
     void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     memcpy(buf, &state->nextVarPageId, sizeof(id_t));
 
+    // The read buffer must not keep the previous contents of this page
+    if (state->bufferedVarPage == physicalPageId)
+        state->bufferedVarPage = -1;
+
     // Write to file
     uint32_t val = state->fileInterface->write(buffer, physicalPageId, state->pageSize, state->varFile);
     if (val == 0) {
@@ -2234,6 +2256,8 @@ void readToWriteBuf(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page from storage
+    state->bufferedPageId = -1;
 }
 
 /**
@@ -2247,6 +2271,8 @@ void readToWriteBufVar(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page from storage
+    state->bufferedVarPage = -1;
 }
 
 /**
@@ -2266,8 +2292,11 @@ int8_t readPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer 1 */
-    if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile))
+    if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile)) {
+        /* The contents of the read buffer are undefined after a failed read */
+        state->bufferedPageId = -1;
         return -1;
+    }
 
     state->numReads++;
     state->bufferedPageId = pageNum;
@@ -2291,8 +2320,11 @@ int8_t readIndexPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer */
-    if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile))
+    if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile)) {
+        /* The contents of the read buffer are undefined after a failed read */
+        state->bufferedIndexPageId = -1;
         return -1;
+    }
 
     state->numIdxReads++;
     state->bufferedIndexPageId = pageNum;
@@ -2317,6 +2349,8 @@ int8_t readVariablePage(embedDBState *state, id_t pageNum) {
 
     // Read in one page worth of data
     if (state->fileInterface->read(buf, pageNum, state->pageSize, state->varFile) == 0) {
+        // The contents of the read buffer are undefined after a failed read
+        state->bufferedVarPage = -1;
         return -1;
     }
 
-- 
2.43.0


From 616b8a7cda68f79e45cbe4758867d57866793bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 03/76] fix: compare a new key with the last record of a
 partially filled page

---
 lib/Distribution/embedDB.c | 11 ++++++++---
 src/embedDB/embedDB.c      | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index eefd4cd..347c5a6 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1436,9 +1436,14 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
         if (count == 0) {
-            readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
-            previousKey = ((int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER) +
-                          (state->recordSize * (state->maxRecordsPerPage - 1)) + state->headerSize;
+            /* The last page written may be only partially full if it was flushed */
+            if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+                printf("ERROR: Failed to read the last data page. Insert Failed.\n");
+#endif
+                return -1;
+            }
+            previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 369a317..fe0e319 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1012,9 +1012,14 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
         if (count == 0) {
-            readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
-            previousKey = ((int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER) +
-                          (state->recordSize * (state->maxRecordsPerPage - 1)) + state->headerSize;
+            /* The last page written may be only partially full if it was flushed */
+            if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+                printf("ERROR: Failed to read the last data page. Insert Failed.\n");
+#endif
+                return -1;
+            }
+            previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
-- 
2.43.0


From 998ca63118851411a4643081a04d9376fe9c3d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 04/76] fix: make binary search usable without a spline and
 return a result

---
 lib/Distribution/embedDB.c | 11 ++++++++++-
 src/embedDB/embedDB.c      | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 347c5a6..b6c05b6 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1825,6 +1825,8 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
 
         if (state->compareKey(key, embedDBGetMinKey(state, buffer)) < 0) {
             /* Key is less than smallest record in block. */
+            if (pageId == first)
+                return -1;
             last = pageId - 1;
             pageId = (first + last) / 2;
         } else if (state->compareKey(key, embedDBGetMaxKey(state, buffer)) > 0) {
@@ -1836,6 +1838,9 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
             return 0;
         }
     }
+
+    /* Only one block is left, and it is in the buffer */
+    return 0;
 }
 
 int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
@@ -2042,7 +2047,7 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
 #endif
 
     /* Determine which data page should be the first examined if there is a min key and that we have spline points */
-    if (state->spl->count != 0 && it->minKey != NULL && !(EMBEDDB_USING_BINARY_SEARCH(state->parameters))) {
+    if (!(EMBEDDB_USING_BINARY_SEARCH(state->parameters)) && state->spl->count != 0 && it->minKey != NULL) {
         /* Spline search */
         uint32_t location, lowbound, highbound = 0;
         splineFind(state->spl, it->minKey, state->compareKey, &location, &lowbound, &highbound);
@@ -2545,6 +2550,10 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
  * @return	Returns the number of points deleted
  */
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
+    /* There is no spline when binary search is used */
+    if (EMBEDDB_USING_BINARY_SEARCH(state->parameters))
+        return 0;
+
     uint32_t numPointsErased = 0;
     void *nextPoint;
     uint32_t currentPageNumber = 0;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index fe0e319..cdc9b3f 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1401,6 +1401,8 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
 
         if (state->compareKey(key, embedDBGetMinKey(state, buffer)) < 0) {
             /* Key is less than smallest record in block. */
+            if (pageId == first)
+                return -1;
             last = pageId - 1;
             pageId = (first + last) / 2;
         } else if (state->compareKey(key, embedDBGetMaxKey(state, buffer)) > 0) {
@@ -1412,6 +1414,9 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
             return 0;
         }
     }
+
+    /* Only one block is left, and it is in the buffer */
+    return 0;
 }
 
 int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
@@ -1618,7 +1623,7 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
 #endif
 
     /* Determine which data page should be the first examined if there is a min key and that we have spline points */
-    if (state->spl->count != 0 && it->minKey != NULL && !(EMBEDDB_USING_BINARY_SEARCH(state->parameters))) {
+    if (!(EMBEDDB_USING_BINARY_SEARCH(state->parameters)) && state->spl->count != 0 && it->minKey != NULL) {
         /* Spline search */
         uint32_t location, lowbound, highbound = 0;
         splineFind(state->spl, it->minKey, state->compareKey, &location, &lowbound, &highbound);
@@ -2121,6 +2126,10 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
  * @return	Returns the number of points deleted
  */
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
+    /* There is no spline when binary search is used */
+    if (EMBEDDB_USING_BINARY_SEARCH(state->parameters))
+        return 0;
+
     uint32_t numPointsErased = 0;
     void *nextPoint;
     uint32_t currentPageNumber = 0;
-- 
2.43.0


From 2892c66fe30a578c75adc4dff7cb13aa3ced2f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 05/76] fix: do not truncate record numbers and counts above
 127

---
 lib/Distribution/embedDB.c | 10 +++++-----
 src/embedDB/embedDB.c      | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index b6c05b6..3ae787d 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -758,7 +758,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -858,7 +858,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      * They may be either an erased page or pages for record-level consistency.
      */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -1881,7 +1881,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
  * @param	data	Pre-allocated memory to copy data for record
  * @return	Return non-negative integer representing offset if success. Non-zero value if error.
  */
-int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
+int32_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
     // return -1 if there is nothing in the buffer
     if (EMBEDDB_GET_COUNT(buffer) == 0) {
         return NO_RECORD_FOUND;
@@ -1910,7 +1910,7 @@ int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
 int8_t embedDBGet(embedDBState *state, void *key, void *data) {
     void *outputBuffer = state->buffer;
     if (state->nextDataPageId == 0) {
-        int8_t success = searchBuffer(state, outputBuffer, key, data);
+        int32_t success = searchBuffer(state, outputBuffer, key, data);
         if (success != NO_RECORD_FOUND) {
             return 0;
         }
@@ -1988,7 +1988,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     void *outputBuffer = (int8_t *)state->buffer;
 
     // search output buffer for record, mem copy fixed record into data
-    int8_t recordNum = searchBuffer(state, outputBuffer, key, data);
+    int32_t recordNum = searchBuffer(state, outputBuffer, key, data);
 
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index cdc9b3f..5a035f8 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -334,7 +334,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -434,7 +434,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      * They may be either an erased page or pages for record-level consistency.
      */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -1457,7 +1457,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
  * @param	data	Pre-allocated memory to copy data for record
  * @return	Return non-negative integer representing offset if success. Non-zero value if error.
  */
-int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
+int32_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
     // return -1 if there is nothing in the buffer
     if (EMBEDDB_GET_COUNT(buffer) == 0) {
         return NO_RECORD_FOUND;
@@ -1486,7 +1486,7 @@ int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
 int8_t embedDBGet(embedDBState *state, void *key, void *data) {
     void *outputBuffer = state->buffer;
     if (state->nextDataPageId == 0) {
-        int8_t success = searchBuffer(state, outputBuffer, key, data);
+        int32_t success = searchBuffer(state, outputBuffer, key, data);
         if (success != NO_RECORD_FOUND) {
             return 0;
         }
@@ -1564,7 +1564,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     void *outputBuffer = (int8_t *)state->buffer;
 
     // search output buffer for record, mem copy fixed record into data
-    int8_t recordNum = searchBuffer(state, outputBuffer, key, data);
+    int32_t recordNum = searchBuffer(state, outputBuffer, key, data);
 
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
-- 
2.43.0


From b396ce30d3206eaa7afe35709136ada4ed1528b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 06/76] fix: move the record-level consistency blocks after a
 flush fills an erase block

---
 lib/Distribution/embedDB.c | 6 ++----
 src/embedDB/embedDB.c      | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 3ae787d..ce4cbc3 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1456,7 +1456,6 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     }
 
     /* Write current page if full */
-    bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
@@ -1490,7 +1489,6 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
         count = 0;
         initBufferPage(state, 0);
-        wrotePage = true;
     }
 
     /* Copy record onto page */
@@ -1548,8 +1546,8 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
     /* If using record level consistency, we need to immediately write the updated page to storage */
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        /* Need to move record level consistency pointers if on a block boundary */
-        if (wrotePage && state->nextDataPageId % state->eraseSizeInPages == 0) {
+        /* Need to move record level consistency pointers if the next data page would be written to the block they start in */
+        if (state->nextDataPageId % state->numDataPages == state->rlcPhysicalStartingPage) {
             /* move record-level consistency blocks */
             shiftRecordLevelConsistencyBlocks(state);
         }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 5a035f8..b612931 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1032,7 +1032,6 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     }
 
     /* Write current page if full */
-    bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
@@ -1066,7 +1065,6 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
         count = 0;
         initBufferPage(state, 0);
-        wrotePage = true;
     }
 
     /* Copy record onto page */
@@ -1124,8 +1122,8 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
     /* If using record level consistency, we need to immediately write the updated page to storage */
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        /* Need to move record level consistency pointers if on a block boundary */
-        if (wrotePage && state->nextDataPageId % state->eraseSizeInPages == 0) {
+        /* Need to move record level consistency pointers if the next data page would be written to the block they start in */
+        if (state->nextDataPageId % state->numDataPages == state->rlcPhysicalStartingPage) {
             /* move record-level consistency blocks */
             shiftRecordLevelConsistencyBlocks(state);
         }
-- 
2.43.0


From f6f27e2494960d8f41133444b090b8daa4d3d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 07/76] fix: return variable data of buffered records from
 embedDBNextVar

---
 lib/Distribution/embedDB.c | 10 ++++++----
 src/embedDB/embedDB.c      | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index ce4cbc3..2df9dec 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1991,7 +1991,8 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
         // flush variable record buffer to storage to read later on
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0)
+            return -1;
         // copy contents of write buffer to read buffer for embedDBSetupVarDataStream()
         readToWriteBuf(state);
         // else if there are records in the file system, mem cpy fixed record into data
@@ -2267,10 +2268,11 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
         return 0;
     }
 
-    void *outputBuffer = (int8_t *)state->buffer;
-    if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
+    // The record is still in the write buffer, so its variable data may not be in storage yet
+    if (it->nextDataPage == state->nextDataPageId) {
         readToWriteBuf(state);
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0)
+            return 0;
     }
 
     // Get the vardata address from the record
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index b612931..ae38923 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1567,7 +1567,8 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
         // flush variable record buffer to storage to read later on
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0)
+            return -1;
         // copy contents of write buffer to read buffer for embedDBSetupVarDataStream()
         readToWriteBuf(state);
         // else if there are records in the file system, mem cpy fixed record into data
@@ -1843,10 +1844,11 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
         return 0;
     }
 
-    void *outputBuffer = (int8_t *)state->buffer;
-    if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
+    // The record is still in the write buffer, so its variable data may not be in storage yet
+    if (it->nextDataPage == state->nextDataPageId) {
         readToWriteBuf(state);
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0)
+            return 0;
     }
 
     // Get the vardata address from the record
-- 
2.43.0


From f719fe1bd131abc218d3be6024dbf031aa596ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 08/76] fix: keep an open iterator from reading pages that were
 reclaimed

---
 lib/Distribution/embedDB.c | 5 +++++
 src/embedDB/embedDB.c      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 2df9dec..9f93fb5 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2175,6 +2175,11 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
         if (it->nextDataPage > state->nextDataPageId) {
             return 0;
         }
+        if (it->nextDataPage < state->minDataPageId) {
+            // The page was reclaimed since the iterator was opened, so its location may hold newer data
+            it->nextDataPage = state->minDataPageId;
+            it->nextDataRec = 0;
+        }
         if (it->nextDataPage == state->nextDataPageId) {
             searchWriteBuf = 1;
         }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index ae38923..2c5da73 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1751,6 +1751,11 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
         if (it->nextDataPage > state->nextDataPageId) {
             return 0;
         }
+        if (it->nextDataPage < state->minDataPageId) {
+            // The page was reclaimed since the iterator was opened, so its location may hold newer data
+            it->nextDataPage = state->minDataPageId;
+            it->nextDataRec = 0;
+        }
         if (it->nextDataPage == state->nextDataPageId) {
             searchWriteBuf = 1;
         }
-- 
2.43.0


From 507d8190eaaea7df3bb5f556dc5986864299f72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 09/76] fix: find index bitmaps by the page range each index
 page covers

---
 lib/Distribution/embedDB.c | 114 +++++++++++++++++++++++++-----------
 lib/Distribution/embedDB.h |   1 +
 src/embedDB/embedDB.c      | 116 ++++++++++++++++++++++++++-----------
 src/embedDB/embedDB.h      |   1 +
 4 files changed, 165 insertions(+), 67 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 9f93fb5..ac38185 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -488,6 +488,8 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
+void initIndexWriteBuffer(embedDBState *state, id_t firstDataPageId);
+int8_t readIndexBitmap(embedDBState *state, id_t dataPageId, void **bitmap);
 
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
@@ -535,6 +537,19 @@ void initBufferPage(embedDBState *state, int pageNum) {
     }
 }
 
+/**
+ * @brief	Initializes the index write buffer
+ * @param	state			embedDB algorithm state structure
+ * @param	firstDataPageId	Data page that the first bitmap on the index page is for
+ */
+void initIndexWriteBuffer(embedDBState *state, id_t firstDataPageId) {
+    initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+
+    /* Add page id to minimum value spot in page */
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
+    memcpy((int8_t *)buf + EMBEDDB_IDX_MIN_OFFSET, &firstDataPageId, sizeof(id_t));
+}
+
 /**
  * @brief   Return the smallest key in the node
  * @param   state   embedDB algorithm state structure
@@ -1031,12 +1046,7 @@ int8_t embedDBInitIndex(embedDBState *state) {
     state->maxIdxRecordsPerPage = (state->pageSize - 16) / state->bitmapSize;
 
     /* Allocate third page of buffer as index output page */
-    initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-    /* Add page id to minimum value spot in page */
-    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-    id_t *ptr = ((id_t *)((int8_t *)buf + 8));
-    *ptr = state->nextDataPageId;
+    initIndexWriteBuffer(state, state->nextDataPageId);
 
     state->nextIdxPageId = 0;
     state->numAvailIndexPages = state->numIndexPages;
@@ -1471,11 +1481,7 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
                 writeIndexPage(state, buf);
 
                 idxcount = 0;
-                initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-                /* Add page id to minimum value spot in page */
-                id_t *ptr = (id_t *)((int8_t *)buf + 8);
-                *ptr = pageNum;
+                initIndexWriteBuffer(state, pageNum);
             }
 
             EMBEDDB_INC_COUNT(buf);
@@ -2125,6 +2131,19 @@ int8_t embedDBFlush(embedDBState *state) {
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
         count_t idxcount = EMBEDDB_GET_COUNT(buf);
+        if (idxcount >= state->maxIdxRecordsPerPage) {
+            /* Save index page */
+            if (writeIndexPage(state, buf) == -1) {
+#ifdef PRINT_ERRORS
+                printf("Failed to write index page during embedDBFlush.");
+#endif
+                return -1;
+            }
+
+            idxcount = 0;
+            initIndexWriteBuffer(state, pageNum);
+        }
+
         EMBEDDB_INC_COUNT(buf);
 
         /* Copy record onto index page */
@@ -2142,7 +2161,7 @@ int8_t embedDBFlush(embedDBState *state) {
         state->fileInterface->flush(state->indexFile);
 
         /* Reinitialize buffer */
-        initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+        initIndexWriteBuffer(state, state->nextDataPageId);
     }
 
     /* Reinitialize buffer */
@@ -2185,30 +2204,21 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
         }
 
         // If we are just starting to read a new page and we have a query bitmap
-        if (it->nextDataRec == 0 && it->queryBitmap != NULL) {
-            // Find what index page determines if we should read the data page
-            uint32_t indexPage = it->nextDataPage / state->maxIdxRecordsPerPage;
-            uint16_t indexRec = it->nextDataPage % state->maxIdxRecordsPerPage;
-
-            if (state->indexFile != NULL && indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
-                // If the index page that contains this data page exists, else we must read the data page regardless cause we don't have the index saved for it
-
-                if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
+        if (it->nextDataRec == 0 && it->queryBitmap != NULL && state->indexFile != NULL) {
+            // Get bitmap for data page in question
+            void *indexBM = NULL;
+            if (readIndexBitmap(state, it->nextDataPage, &indexBM) != 0) {
 #ifdef PRINT_ERRORS
-                    printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
+                printf("ERROR: Failed to read index page for data page %i\n", it->nextDataPage);
 #endif
-                    return 0;
-                }
-
-                // Get bitmap for data page in question
-                void *indexBM = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
+                return 0;
+            }
 
-                // Determine if we should read the data page
-                if (!bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
-                    // Do not read this data page, try the next one
-                    it->nextDataPage++;
-                    continue;
-                }
+            // If the index page that contains this data page exists, determine if we should read the data page, else we must read the data page regardless cause we don't have the index saved for it
+            if (indexBM != NULL && !bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
+                // Do not read this data page, try the next one
+                it->nextDataPage++;
+                continue;
             }
         }
 
@@ -2774,6 +2784,44 @@ int8_t readIndexPage(embedDBState *state, id_t pageNum) {
     return 0;
 }
 
+/**
+ * @brief	Finds the bitmap for a data page in the index file. Index pages may hold fewer bitmaps than fit on them if they were
+ *          flushed, and some data pages may not be in the index at all.
+ * @param	state		embedDB algorithm state structure
+ * @param	dataPageId	Logical data page number to find the bitmap of
+ * @param	bitmap		Return variable for the location of the bitmap in the index read buffer. NULL if the index does not have it.
+ * @return	Return 0 if success, -1 if error.
+ */
+int8_t readIndexBitmap(embedDBState *state, id_t dataPageId, void **bitmap) {
+    int8_t *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
+    id_t first = state->minIndexPageId, last = state->nextIdxPageId;
+    *bitmap = NULL;
+
+    /* This is the index page if all the pages in the index were full when they were written */
+    id_t indexPage = dataPageId / state->maxIdxRecordsPerPage;
+    while (first < last) {
+        if (indexPage < first || indexPage >= last)
+            indexPage = first + (last - first) / 2;
+
+        if (readIndexPage(state, indexPage % state->numIndexPages) != 0)
+            return -1;
+
+        id_t firstDataPageId = 0;
+        memcpy(&firstDataPageId, buf + EMBEDDB_IDX_MIN_OFFSET, sizeof(id_t));
+        if (dataPageId < firstDataPageId) {
+            last = indexPage;
+        } else if (dataPageId - firstDataPageId >= EMBEDDB_GET_COUNT(buf)) {
+            first = indexPage + 1;
+        } else {
+            *bitmap = buf + EMBEDDB_IDX_HEADER_SIZE + (dataPageId - firstDataPageId) * state->bitmapSize;
+            return 0;
+        }
+        indexPage = first + (last - first) / 2;
+    }
+
+    return 0;
+}
+
 /**
  * @brief	Reads given variable data page from storage
  * @param 	state 	embedDB algorithm state structure
diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 194eb88..53eb684 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -258,6 +258,7 @@ typedef uint16_t count_t;
 #define EMBEDDB_BITMAP_OFFSET 6
 // #define EMBEDDB_MIN_OFFSET		8
 #define EMBEDDB_MIN_OFFSET 14
+#define EMBEDDB_IDX_MIN_OFFSET 8
 #define EMBEDDB_IDX_HEADER_SIZE 16
 
 #define EMBEDDB_NO_VAR_DATA UINT32_MAX
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 2c5da73..ea65a3e 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -64,6 +64,8 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
+void initIndexWriteBuffer(embedDBState *state, id_t firstDataPageId);
+int8_t readIndexBitmap(embedDBState *state, id_t dataPageId, void **bitmap);
 
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
@@ -111,6 +113,19 @@ void initBufferPage(embedDBState *state, int pageNum) {
     }
 }
 
+/**
+ * @brief	Initializes the index write buffer
+ * @param	state			embedDB algorithm state structure
+ * @param	firstDataPageId	Data page that the first bitmap on the index page is for
+ */
+void initIndexWriteBuffer(embedDBState *state, id_t firstDataPageId) {
+    initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+
+    /* Add page id to minimum value spot in page */
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
+    memcpy((int8_t *)buf + EMBEDDB_IDX_MIN_OFFSET, &firstDataPageId, sizeof(id_t));
+}
+
 /**
  * @brief   Return the smallest key in the node
  * @param   state   embedDB algorithm state structure
@@ -607,12 +622,7 @@ int8_t embedDBInitIndex(embedDBState *state) {
     state->maxIdxRecordsPerPage = (state->pageSize - 16) / state->bitmapSize;
 
     /* Allocate third page of buffer as index output page */
-    initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-    /* Add page id to minimum value spot in page */
-    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-    id_t *ptr = ((id_t *)((int8_t *)buf + 8));
-    *ptr = state->nextDataPageId;
+    initIndexWriteBuffer(state, state->nextDataPageId);
 
     state->nextIdxPageId = 0;
     state->numAvailIndexPages = state->numIndexPages;
@@ -1047,11 +1057,7 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
                 writeIndexPage(state, buf);
 
                 idxcount = 0;
-                initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-                /* Add page id to minimum value spot in page */
-                id_t *ptr = (id_t *)((int8_t *)buf + 8);
-                *ptr = pageNum;
+                initIndexWriteBuffer(state, pageNum);
             }
 
             EMBEDDB_INC_COUNT(buf);
@@ -1701,6 +1707,19 @@ int8_t embedDBFlush(embedDBState *state) {
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
         count_t idxcount = EMBEDDB_GET_COUNT(buf);
+        if (idxcount >= state->maxIdxRecordsPerPage) {
+            /* Save index page */
+            if (writeIndexPage(state, buf) == -1) {
+#ifdef PRINT_ERRORS
+                printf("Failed to write index page during embedDBFlush.");
+#endif
+                return -1;
+            }
+
+            idxcount = 0;
+            initIndexWriteBuffer(state, pageNum);
+        }
+
         EMBEDDB_INC_COUNT(buf);
 
         /* Copy record onto index page */
@@ -1718,7 +1737,7 @@ int8_t embedDBFlush(embedDBState *state) {
         state->fileInterface->flush(state->indexFile);
 
         /* Reinitialize buffer */
-        initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+        initIndexWriteBuffer(state, state->nextDataPageId);
     }
 
     /* Reinitialize buffer */
@@ -1761,30 +1780,21 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
         }
 
         // If we are just starting to read a new page and we have a query bitmap
-        if (it->nextDataRec == 0 && it->queryBitmap != NULL) {
-            // Find what index page determines if we should read the data page
-            uint32_t indexPage = it->nextDataPage / state->maxIdxRecordsPerPage;
-            uint16_t indexRec = it->nextDataPage % state->maxIdxRecordsPerPage;
-
-            if (state->indexFile != NULL && indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
-                // If the index page that contains this data page exists, else we must read the data page regardless cause we don't have the index saved for it
-
-                if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
+        if (it->nextDataRec == 0 && it->queryBitmap != NULL && state->indexFile != NULL) {
+            // Get bitmap for data page in question
+            void *indexBM = NULL;
+            if (readIndexBitmap(state, it->nextDataPage, &indexBM) != 0) {
 #ifdef PRINT_ERRORS
-                    printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
+                printf("ERROR: Failed to read index page for data page %i\n", it->nextDataPage);
 #endif
-                    return 0;
-                }
-
-                // Get bitmap for data page in question
-                void *indexBM = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
-
-                // Determine if we should read the data page
-                if (!bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
-                    // Do not read this data page, try the next one
-                    it->nextDataPage++;
-                    continue;
-                }
+                return 0;
+            }
+
+            // If the index page that contains this data page exists, determine if we should read the data page, else we must read the data page regardless cause we don't have the index saved for it
+            if (indexBM != NULL && !bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
+                // Do not read this data page, try the next one
+                it->nextDataPage++;
+                continue;
             }
         }
 
@@ -2350,6 +2360,44 @@ int8_t readIndexPage(embedDBState *state, id_t pageNum) {
     return 0;
 }
 
+/**
+ * @brief	Finds the bitmap for a data page in the index file. Index pages may hold fewer bitmaps than fit on them if they were
+ *          flushed, and some data pages may not be in the index at all.
+ * @param	state		embedDB algorithm state structure
+ * @param	dataPageId	Logical data page number to find the bitmap of
+ * @param	bitmap		Return variable for the location of the bitmap in the index read buffer. NULL if the index does not have it.
+ * @return	Return 0 if success, -1 if error.
+ */
+int8_t readIndexBitmap(embedDBState *state, id_t dataPageId, void **bitmap) {
+    int8_t *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
+    id_t first = state->minIndexPageId, last = state->nextIdxPageId;
+    *bitmap = NULL;
+
+    /* This is the index page if all the pages in the index were full when they were written */
+    id_t indexPage = dataPageId / state->maxIdxRecordsPerPage;
+    while (first < last) {
+        if (indexPage < first || indexPage >= last)
+            indexPage = first + (last - first) / 2;
+
+        if (readIndexPage(state, indexPage % state->numIndexPages) != 0)
+            return -1;
+
+        id_t firstDataPageId = 0;
+        memcpy(&firstDataPageId, buf + EMBEDDB_IDX_MIN_OFFSET, sizeof(id_t));
+        if (dataPageId < firstDataPageId) {
+            last = indexPage;
+        } else if (dataPageId - firstDataPageId >= EMBEDDB_GET_COUNT(buf)) {
+            first = indexPage + 1;
+        } else {
+            *bitmap = buf + EMBEDDB_IDX_HEADER_SIZE + (dataPageId - firstDataPageId) * state->bitmapSize;
+            return 0;
+        }
+        indexPage = first + (last - first) / 2;
+    }
+
+    return 0;
+}
+
 /**
  * @brief	Reads given variable data page from storage
  * @param 	state 	embedDB algorithm state structure
diff --git a/src/embedDB/embedDB.h b/src/embedDB/embedDB.h
index 5d9521b..6994711 100644
--- a/src/embedDB/embedDB.h
+++ b/src/embedDB/embedDB.h
@@ -78,6 +78,7 @@ typedef uint16_t count_t;
 #define EMBEDDB_BITMAP_OFFSET 6
 // #define EMBEDDB_MIN_OFFSET		8
 #define EMBEDDB_MIN_OFFSET 14
+#define EMBEDDB_IDX_MIN_OFFSET 8
 #define EMBEDDB_IDX_HEADER_SIZE 16
 
 #define EMBEDDB_NO_VAR_DATA UINT32_MAX
-- 
2.43.0


From fcaaa08adb92dc37a53cd56874f63bdaf8c31f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 10/76] fix: recover the oldest data page when erase blocks
 hold no data

---
 lib/Distribution/embedDB.c | 49 +++++++++++++++++++++++++++++++-------
 src/embedDB/embedDB.c      | 49 +++++++++++++++++++++++++++++++-------
 2 files changed, 80 insertions(+), 18 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index ac38185..f8402a8 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -758,6 +758,16 @@ int8_t embedDBInitData(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief	Logical page number of the newest page that can be stored at a location of a file
+ * @param	physicalPageId		Location in the file
+ * @param	maxLogicalPageId	Newest logical page in the file
+ * @param	numPages			Number of pages in the file
+ */
+static id_t newestLogicalPageIdAt(id_t physicalPageId, id_t maxLogicalPageId, uint32_t numPages) {
+    return maxLogicalPageId - (maxLogicalPageId % numPages + numPages - physicalPageId) % numPages;
+}
+
 int8_t embedDBInitDataFromFile(embedDBState *state) {
     id_t logicalPageId = 0;
     id_t maxLogicalPageId = 0;
@@ -774,12 +784,14 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
     count_t numRecords = 0;
+    id_t physicalPageIDOfSmallestData = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
         numRecords = EMBEDDB_GET_COUNT(buffer);
         if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
             hasData = true;
+            physicalPageIDOfSmallestData = physicalPageId;
             maxLogicalPageId = logicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
@@ -813,9 +825,8 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is we have not wrapped and the page with the smallest key is the first one we found.
      */
-    id_t physicalPageIDOfSmallestData = 0;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numDataPages) {
@@ -833,21 +844,36 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
         /* check if data is valid or if it is junk */
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
+        validData = logicalPageId <= maxLogicalPageId && logicalPageId == newestLogicalPageIdAt(physicalPageId, maxLogicalPageId, state->numDataPages);
 
         /* this means we have wrapped and our start is actually here */
         if (validData) {
             physicalPageIDOfSmallestData = physicalPageId;
+
+            /* if we are on a block boundary, the block we skipped still has to be erased before it can be written */
+            if (pagesToBlockBoundary == blockSize) {
+                int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
+                if (!eraseSuccess) {
+#ifdef PRINT_ERRORS
+                    printf("Error: Unable to erase data page during recovery!\n");
+#endif
+                    return -1;
+                }
+            }
         }
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
+    if (readPage(state, physicalPageIDOfSmallestData) != 0) {
+        return -1;
+    }
     memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1;
 
     /* Put largest key back into the buffer */
-    readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
+    if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+        return -1;
+    }
 
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
         embedDBInitSplineFromFile(state);
@@ -918,7 +944,8 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t pagesToBlockBoundary = blockSize - (count % blockSize);
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
-        int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
+        id_t eraseStartingPage = count % state->numDataPages;
+        int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseStartingPage + blockSize, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase data page during recovery!\n");
@@ -1005,7 +1032,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     int8_t readSuccess = readPage(state, physicalPageId);
     if (readSuccess == 0) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
+        validData = logicalPageId <= maxLogicalPageId && logicalPageId == newestLogicalPageIdAt(physicalPageId, maxLogicalPageId, state->numDataPages);
 
         /* this means we have wrapped and our start is actually here */
         if (validData) {
@@ -1014,12 +1041,16 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
+    if (readPage(state, physicalPageIDOfSmallestData) != 0) {
+        return -1;
+    }
     memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1 - (2 * blockSize);
 
     /* Put largest key back into the buffer */
-    readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
+    if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+        return -1;
+    }
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
         embedDBInitSplineFromFile(state);
     }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index ea65a3e..66fd9be 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -334,6 +334,16 @@ int8_t embedDBInitData(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief	Logical page number of the newest page that can be stored at a location of a file
+ * @param	physicalPageId		Location in the file
+ * @param	maxLogicalPageId	Newest logical page in the file
+ * @param	numPages			Number of pages in the file
+ */
+static id_t newestLogicalPageIdAt(id_t physicalPageId, id_t maxLogicalPageId, uint32_t numPages) {
+    return maxLogicalPageId - (maxLogicalPageId % numPages + numPages - physicalPageId) % numPages;
+}
+
 int8_t embedDBInitDataFromFile(embedDBState *state) {
     id_t logicalPageId = 0;
     id_t maxLogicalPageId = 0;
@@ -350,12 +360,14 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
     count_t numRecords = 0;
+    id_t physicalPageIDOfSmallestData = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
         numRecords = EMBEDDB_GET_COUNT(buffer);
         if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
             hasData = true;
+            physicalPageIDOfSmallestData = physicalPageId;
             maxLogicalPageId = logicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
@@ -389,9 +401,8 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is we have not wrapped and the page with the smallest key is the first one we found.
      */
-    id_t physicalPageIDOfSmallestData = 0;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numDataPages) {
@@ -409,21 +420,36 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
         /* check if data is valid or if it is junk */
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
+        validData = logicalPageId <= maxLogicalPageId && logicalPageId == newestLogicalPageIdAt(physicalPageId, maxLogicalPageId, state->numDataPages);
 
         /* this means we have wrapped and our start is actually here */
         if (validData) {
             physicalPageIDOfSmallestData = physicalPageId;
+
+            /* if we are on a block boundary, the block we skipped still has to be erased before it can be written */
+            if (pagesToBlockBoundary == blockSize) {
+                int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
+                if (!eraseSuccess) {
+#ifdef PRINT_ERRORS
+                    printf("Error: Unable to erase data page during recovery!\n");
+#endif
+                    return -1;
+                }
+            }
         }
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
+    if (readPage(state, physicalPageIDOfSmallestData) != 0) {
+        return -1;
+    }
     memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1;
 
     /* Put largest key back into the buffer */
-    readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
+    if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+        return -1;
+    }
 
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
         embedDBInitSplineFromFile(state);
@@ -494,7 +520,8 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t pagesToBlockBoundary = blockSize - (count % blockSize);
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
-        int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
+        id_t eraseStartingPage = count % state->numDataPages;
+        int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseStartingPage + blockSize, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase data page during recovery!\n");
@@ -581,7 +608,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     int8_t readSuccess = readPage(state, physicalPageId);
     if (readSuccess == 0) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
+        validData = logicalPageId <= maxLogicalPageId && logicalPageId == newestLogicalPageIdAt(physicalPageId, maxLogicalPageId, state->numDataPages);
 
         /* this means we have wrapped and our start is actually here */
         if (validData) {
@@ -590,12 +617,16 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
+    if (readPage(state, physicalPageIDOfSmallestData) != 0) {
+        return -1;
+    }
     memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1 - (2 * blockSize);
 
     /* Put largest key back into the buffer */
-    readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
+    if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+        return -1;
+    }
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
         embedDBInitSplineFromFile(state);
     }
-- 
2.43.0


From 902904d6de9bb525c9d7018f2a6d08b8ed827c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:53 +0000
Subject: [PATCH 11/76] fix: recover the index file when erase blocks hold no
 index pages

---
 lib/Distribution/embedDB.c | 78 +++++++++++++++++++++++++++++---------
 src/embedDB/embedDB.c      | 78 +++++++++++++++++++++++++++++---------
 2 files changed, 120 insertions(+), 36 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index f8402a8..57ed7ff 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1104,7 +1104,8 @@ int8_t embedDBInitIndex(embedDBState *state) {
         return -1;
     }
 
-    if (!EMBEDDB_RESETING_DATA(state->parameters)) {
+    /* The index of a data file without any pages is of no use */
+    if (!EMBEDDB_RESETING_DATA(state->parameters) && state->nextDataPageId > 0) {
         int8_t openStatus = state->fileInterface->open(state->indexFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
             return embedDBInitIndexFromFile(state);
@@ -1130,32 +1131,70 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     /* This will become zero if there is no more to read */
     int8_t moreToRead = !(readIndexPage(state, physicalIndexPageId));
 
-    bool haveWrappedInMemory = false;
-    int count = 0;
+    bool validData = false;
+    bool hasData = false;
+    uint32_t count = 0;
+    count_t blockSize = state->eraseSizeInPages;
+    count_t numBitmaps = 0;
+    id_t physicalPageIDOfSmallestData = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
 
+    /* this handles the case where the first block may have been erased, so has junk data and we actually need to start from the second block */
+    uint32_t i = 0;
+    while (moreToRead && i < 2) {
+        memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+        validData = logicalIndexPageId % state->numIndexPages == count;
+        numBitmaps = EMBEDDB_GET_COUNT(buffer);
+        if (validData && numBitmaps > 0 && numBitmaps <= state->maxIdxRecordsPerPage) {
+            hasData = true;
+            physicalPageIDOfSmallestData = physicalIndexPageId;
+            maxLogicaIndexPageId = logicalIndexPageId;
+            physicalIndexPageId++;
+            count++;
+            i = 2;
+        } else {
+            physicalIndexPageId += blockSize;
+            count += blockSize;
+        }
+        moreToRead = !(readIndexPage(state, physicalIndexPageId));
+        i++;
+    }
+
+    if (!hasData)
+        return 0;
+
     while (moreToRead && count < state->numIndexPages) {
         memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-        if (count == 0 || logicalIndexPageId == maxLogicaIndexPageId + 1) {
+        if (logicalIndexPageId == maxLogicaIndexPageId + 1) {
             maxLogicaIndexPageId = logicalIndexPageId;
             physicalIndexPageId++;
             moreToRead = !(readIndexPage(state, physicalIndexPageId));
             count++;
         } else {
-            haveWrappedInMemory = logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
             break;
         }
     }
 
-    if (count == 0)
-        return 0;
+    /* check if we have wrapped, in which case the oldest page is the next one or, if its block was erased, at the start of the next block */
+    if (moreToRead && count < state->numIndexPages) {
+        memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+        validData = logicalIndexPageId <= maxLogicaIndexPageId && logicalIndexPageId == newestLogicalPageIdAt(physicalIndexPageId, maxLogicaIndexPageId, state->numIndexPages);
+        if (!validData) {
+            physicalIndexPageId = (physicalIndexPageId + blockSize - (count % blockSize)) % state->numIndexPages;
+            if (readIndexPage(state, physicalIndexPageId) == 0) {
+                memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+                validData = logicalIndexPageId <= maxLogicaIndexPageId && logicalIndexPageId == newestLogicalPageIdAt(physicalIndexPageId, maxLogicaIndexPageId, state->numIndexPages);
+            }
+        }
+        if (validData) {
+            physicalPageIDOfSmallestData = physicalIndexPageId;
+        }
+    }
 
     state->nextIdxPageId = maxLogicaIndexPageId + 1;
-    id_t physicalPageIDOfSmallestData = 0;
-    if (haveWrappedInMemory) {
-        physicalPageIDOfSmallestData = logicalIndexPageId % state->numIndexPages;
+    if (readIndexPage(state, physicalPageIDOfSmallestData) != 0) {
+        return -1;
     }
-    readIndexPage(state, physicalPageIDOfSmallestData);
     memcpy(&(state->minIndexPageId), buffer, sizeof(id_t));
     state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicaIndexPageId - 1;
 
@@ -2638,16 +2677,19 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     memcpy(buffer, &(pageNum), sizeof(id_t));
 
     if (state->numAvailIndexPages <= 0) {
-        // Erase index pages to make room for new page
-        int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
-        if (eraseResult != 1) {
+        // Erase index pages to make room for new page. If the page is not at the start of its erase block, the block was erased before its first page was written
+        uint32_t numPagesFreed = state->eraseSizeInPages - physicalPageNumber % state->eraseSizeInPages;
+        if (numPagesFreed == state->eraseSizeInPages) {
+            int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
+            if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
-            printf("Failed to erase data page: %i (%i)\n", pageNum, physicalPageNumber);
+                printf("Failed to erase data page: %i (%i)\n", pageNum, physicalPageNumber);
 #endif
-            return -1;
+                return -1;
+            }
         }
-        state->numAvailIndexPages += state->eraseSizeInPages;
-        state->minIndexPageId += state->eraseSizeInPages;
+        state->numAvailIndexPages += numPagesFreed;
+        state->minIndexPageId += numPagesFreed;
     }
 
     /* The read buffer must not keep the previous contents of this page */
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 66fd9be..41d46a0 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -680,7 +680,8 @@ int8_t embedDBInitIndex(embedDBState *state) {
         return -1;
     }
 
-    if (!EMBEDDB_RESETING_DATA(state->parameters)) {
+    /* The index of a data file without any pages is of no use */
+    if (!EMBEDDB_RESETING_DATA(state->parameters) && state->nextDataPageId > 0) {
         int8_t openStatus = state->fileInterface->open(state->indexFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
             return embedDBInitIndexFromFile(state);
@@ -706,32 +707,70 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     /* This will become zero if there is no more to read */
     int8_t moreToRead = !(readIndexPage(state, physicalIndexPageId));
 
-    bool haveWrappedInMemory = false;
-    int count = 0;
+    bool validData = false;
+    bool hasData = false;
+    uint32_t count = 0;
+    count_t blockSize = state->eraseSizeInPages;
+    count_t numBitmaps = 0;
+    id_t physicalPageIDOfSmallestData = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
 
+    /* this handles the case where the first block may have been erased, so has junk data and we actually need to start from the second block */
+    uint32_t i = 0;
+    while (moreToRead && i < 2) {
+        memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+        validData = logicalIndexPageId % state->numIndexPages == count;
+        numBitmaps = EMBEDDB_GET_COUNT(buffer);
+        if (validData && numBitmaps > 0 && numBitmaps <= state->maxIdxRecordsPerPage) {
+            hasData = true;
+            physicalPageIDOfSmallestData = physicalIndexPageId;
+            maxLogicaIndexPageId = logicalIndexPageId;
+            physicalIndexPageId++;
+            count++;
+            i = 2;
+        } else {
+            physicalIndexPageId += blockSize;
+            count += blockSize;
+        }
+        moreToRead = !(readIndexPage(state, physicalIndexPageId));
+        i++;
+    }
+
+    if (!hasData)
+        return 0;
+
     while (moreToRead && count < state->numIndexPages) {
         memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-        if (count == 0 || logicalIndexPageId == maxLogicaIndexPageId + 1) {
+        if (logicalIndexPageId == maxLogicaIndexPageId + 1) {
             maxLogicaIndexPageId = logicalIndexPageId;
             physicalIndexPageId++;
             moreToRead = !(readIndexPage(state, physicalIndexPageId));
             count++;
         } else {
-            haveWrappedInMemory = logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
             break;
         }
     }
 
-    if (count == 0)
-        return 0;
+    /* check if we have wrapped, in which case the oldest page is the next one or, if its block was erased, at the start of the next block */
+    if (moreToRead && count < state->numIndexPages) {
+        memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+        validData = logicalIndexPageId <= maxLogicaIndexPageId && logicalIndexPageId == newestLogicalPageIdAt(physicalIndexPageId, maxLogicaIndexPageId, state->numIndexPages);
+        if (!validData) {
+            physicalIndexPageId = (physicalIndexPageId + blockSize - (count % blockSize)) % state->numIndexPages;
+            if (readIndexPage(state, physicalIndexPageId) == 0) {
+                memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+                validData = logicalIndexPageId <= maxLogicaIndexPageId && logicalIndexPageId == newestLogicalPageIdAt(physicalIndexPageId, maxLogicaIndexPageId, state->numIndexPages);
+            }
+        }
+        if (validData) {
+            physicalPageIDOfSmallestData = physicalIndexPageId;
+        }
+    }
 
     state->nextIdxPageId = maxLogicaIndexPageId + 1;
-    id_t physicalPageIDOfSmallestData = 0;
-    if (haveWrappedInMemory) {
-        physicalPageIDOfSmallestData = logicalIndexPageId % state->numIndexPages;
+    if (readIndexPage(state, physicalPageIDOfSmallestData) != 0) {
+        return -1;
     }
-    readIndexPage(state, physicalPageIDOfSmallestData);
     memcpy(&(state->minIndexPageId), buffer, sizeof(id_t));
     state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicaIndexPageId - 1;
 
@@ -2214,16 +2253,19 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     memcpy(buffer, &(pageNum), sizeof(id_t));
 
     if (state->numAvailIndexPages <= 0) {
-        // Erase index pages to make room for new page
-        int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
-        if (eraseResult != 1) {
+        // Erase index pages to make room for new page. If the page is not at the start of its erase block, the block was erased before its first page was written
+        uint32_t numPagesFreed = state->eraseSizeInPages - physicalPageNumber % state->eraseSizeInPages;
+        if (numPagesFreed == state->eraseSizeInPages) {
+            int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
+            if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
-            printf("Failed to erase data page: %i (%i)\n", pageNum, physicalPageNumber);
+                printf("Failed to erase data page: %i (%i)\n", pageNum, physicalPageNumber);
 #endif
-            return -1;
+                return -1;
+            }
         }
-        state->numAvailIndexPages += state->eraseSizeInPages;
-        state->minIndexPageId += state->eraseSizeInPages;
+        state->numAvailIndexPages += numPagesFreed;
+        state->minIndexPageId += numPagesFreed;
     }
 
     /* The read buffer must not keep the previous contents of this page */
-- 
2.43.0


From f325396c89dd062725a02a3d74e9998d0fa5e77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 12/76] fix: recover the variable data file when erase blocks
 hold no data

---
 lib/Distribution/embedDB.c | 31 +++++++++++++++++++++++++++----
 src/embedDB/embedDB.c      | 31 +++++++++++++++++++++++++++----
 2 files changed, 54 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 57ed7ff..f508981 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1211,7 +1211,7 @@ int8_t embedDBInitVarData(embedDBState *state) {
     state->numAvailVarPages = state->numVarPages;
     state->nextVarPageId = 0;
 
-    if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters))) {
+    if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_GET_COUNT(state->buffer) > 0)) {
         int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openResult) {
             return embedDBInitVarDataFromFile(state);
@@ -1244,6 +1244,8 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
+    bool firstPageMayBeValid = false;
+    id_t physicalPageIDOfSmallestData = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
         validData = logicalVariablePageId % state->numVarPages == count;
@@ -1259,6 +1261,10 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
                 i = 2;
                 hasData = true;
                 maxLogicalVariablePageId = logicalVariablePageId;
+                /* a page that was skipped is the one before this one unless its block was erased */
+                physicalPageIDOfSmallestData = logicalVariablePageId == 1 ? 0 : physicalVariablePageId;
+            } else {
+                firstPageMayBeValid = true;
             }
             physicalVariablePageId++;
             count++;
@@ -1271,6 +1277,13 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         moreToRead = !(readVariablePage(state, physicalVariablePageId));
     }
 
+    /* if there is no other data, the first page may hold the data of a record with key 0. If it does not, all we lose is this page */
+    if (!hasData && firstPageMayBeValid) {
+        hasData = true;
+        physicalVariablePageId = count = 1;
+        moreToRead = !(readVariablePage(state, physicalVariablePageId));
+    }
+
     /* if we have no valid data, we just have an empty file can can start from the scratch */
     if (!hasData)
         return 0;
@@ -1290,9 +1303,8 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is we have not wrapped and the page with the smallest key is the first one we found.
      */
-    id_t physicalPageIDOfSmallestData = 0;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numVarPages) {
@@ -1310,11 +1322,22 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
         /* check if data is valid or if it is junk */
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == physicalVariablePageId;
+        validData = logicalVariablePageId <= maxLogicalVariablePageId && logicalVariablePageId == newestLogicalPageIdAt(physicalVariablePageId, maxLogicalVariablePageId, state->numVarPages);
 
         /* this means we have wrapped and our start is actually here */
         if (validData) {
             physicalPageIDOfSmallestData = physicalVariablePageId;
+
+            /* if we are on a block boundary, the block we skipped still has to be erased before it can be written */
+            if (pagesToBlockBoundary == blockSize) {
+                int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->varFile);
+                if (!eraseSuccess) {
+#ifdef PRINT_ERRORS
+                    printf("Error: Unable to erase variable data page during recovery!\n");
+#endif
+                    return -1;
+                }
+            }
         }
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 41d46a0..4c09db9 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -787,7 +787,7 @@ int8_t embedDBInitVarData(embedDBState *state) {
     state->numAvailVarPages = state->numVarPages;
     state->nextVarPageId = 0;
 
-    if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters))) {
+    if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_GET_COUNT(state->buffer) > 0)) {
         int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openResult) {
             return embedDBInitVarDataFromFile(state);
@@ -820,6 +820,8 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
+    bool firstPageMayBeValid = false;
+    id_t physicalPageIDOfSmallestData = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
         validData = logicalVariablePageId % state->numVarPages == count;
@@ -835,6 +837,10 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
                 i = 2;
                 hasData = true;
                 maxLogicalVariablePageId = logicalVariablePageId;
+                /* a page that was skipped is the one before this one unless its block was erased */
+                physicalPageIDOfSmallestData = logicalVariablePageId == 1 ? 0 : physicalVariablePageId;
+            } else {
+                firstPageMayBeValid = true;
             }
             physicalVariablePageId++;
             count++;
@@ -847,6 +853,13 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         moreToRead = !(readVariablePage(state, physicalVariablePageId));
     }
 
+    /* if there is no other data, the first page may hold the data of a record with key 0. If it does not, all we lose is this page */
+    if (!hasData && firstPageMayBeValid) {
+        hasData = true;
+        physicalVariablePageId = count = 1;
+        moreToRead = !(readVariablePage(state, physicalVariablePageId));
+    }
+
     /* if we have no valid data, we just have an empty file can can start from the scratch */
     if (!hasData)
         return 0;
@@ -866,9 +879,8 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is we have not wrapped and the page with the smallest key is the first one we found.
      */
-    id_t physicalPageIDOfSmallestData = 0;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numVarPages) {
@@ -886,11 +898,22 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
         /* check if data is valid or if it is junk */
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == physicalVariablePageId;
+        validData = logicalVariablePageId <= maxLogicalVariablePageId && logicalVariablePageId == newestLogicalPageIdAt(physicalVariablePageId, maxLogicalVariablePageId, state->numVarPages);
 
         /* this means we have wrapped and our start is actually here */
         if (validData) {
             physicalPageIDOfSmallestData = physicalVariablePageId;
+
+            /* if we are on a block boundary, the block we skipped still has to be erased before it can be written */
+            if (pagesToBlockBoundary == blockSize) {
+                int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->varFile);
+                if (!eraseSuccess) {
+#ifdef PRINT_ERRORS
+                    printf("Error: Unable to erase variable data page during recovery!\n");
+#endif
+                    return -1;
+                }
+            }
         }
     }
 
-- 
2.43.0


From 97676e9ab1b0f9787e253caf9f109e0b87cba800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:45 +0000
Subject: [PATCH 13/76] fix: skip the page header when a variable data stream
 read ends at a page boundary

---
 lib/Distribution/embedDB.c | 35 +++++++++++++----------------------
 src/embedDB/embedDB.c      | 35 +++++++++++++----------------------
 2 files changed, 26 insertions(+), 44 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index f508981..4d8a082 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2481,38 +2481,29 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
         return 0;
     }
 
-    // Read in var page containing the data to read
-    uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
-    if (readVariablePage(state, pageNum) != 0) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Couldn't read variable data page %d\n", pageNum);
-#endif
-        return 0;
-    }
-
     // Keep reading in data until the buffer is full
     void *varDataBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
     uint32_t amtRead = 0;
     while (amtRead < length && stream->bytesRead < stream->totalBytes) {
+        // If the last page was read to its end, skip past the header of the next one
+        if (stream->fileOffset % state->pageSize == 0)
+            stream->fileOffset += state->variableDataHeaderSize;
+
+        // Read in var page containing the data to read
+        uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
+        if (readVariablePage(state, pageNum) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Couldn't read variable data page %d\n", pageNum);
+#endif
+            return amtRead;
+        }
+
         uint16_t pageOffset = stream->fileOffset % state->pageSize;
         uint32_t amtToRead = min(stream->totalBytes - stream->bytesRead, min(state->pageSize - pageOffset, length - amtRead));
         memcpy((int8_t *)buffer + amtRead, (int8_t *)varDataBuf + pageOffset, amtToRead);
         amtRead += amtToRead;
         stream->bytesRead += amtToRead;
         stream->fileOffset += amtToRead;
-
-        // If we need to keep reading, read the next page
-        if (amtRead < length && stream->bytesRead < stream->totalBytes) {
-            pageNum = (pageNum + 1) % state->numVarPages;
-            if (readVariablePage(state, pageNum) != 0) {
-#ifdef PRINT_ERRORS
-                printf("ERROR: Couldn't read variable data page %d\n", pageNum);
-#endif
-                return 0;
-            }
-            // Skip past the header
-            stream->fileOffset += state->variableDataHeaderSize;
-        }
     }
 
     return amtRead;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 4c09db9..7736765 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2057,38 +2057,29 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
         return 0;
     }
 
-    // Read in var page containing the data to read
-    uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
-    if (readVariablePage(state, pageNum) != 0) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Couldn't read variable data page %d\n", pageNum);
-#endif
-        return 0;
-    }
-
     // Keep reading in data until the buffer is full
     void *varDataBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
     uint32_t amtRead = 0;
     while (amtRead < length && stream->bytesRead < stream->totalBytes) {
+        // If the last page was read to its end, skip past the header of the next one
+        if (stream->fileOffset % state->pageSize == 0)
+            stream->fileOffset += state->variableDataHeaderSize;
+
+        // Read in var page containing the data to read
+        uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
+        if (readVariablePage(state, pageNum) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Couldn't read variable data page %d\n", pageNum);
+#endif
+            return amtRead;
+        }
+
         uint16_t pageOffset = stream->fileOffset % state->pageSize;
         uint32_t amtToRead = min(stream->totalBytes - stream->bytesRead, min(state->pageSize - pageOffset, length - amtRead));
         memcpy((int8_t *)buffer + amtRead, (int8_t *)varDataBuf + pageOffset, amtToRead);
         amtRead += amtToRead;
         stream->bytesRead += amtToRead;
         stream->fileOffset += amtToRead;
-
-        // If we need to keep reading, read the next page
-        if (amtRead < length && stream->bytesRead < stream->totalBytes) {
-            pageNum = (pageNum + 1) % state->numVarPages;
-            if (readVariablePage(state, pageNum) != 0) {
-#ifdef PRINT_ERRORS
-                printf("ERROR: Couldn't read variable data page %d\n", pageNum);
-#endif
-                return 0;
-            }
-            // Skip past the header
-            stream->fileOffset += state->variableDataHeaderSize;
-        }
     }
 
     return amtRead;
-- 
2.43.0


From 3cf7c810baecb1789855079b90bd2c3c0e7c5f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 14/76] fix: read the newest key of a variable data block
 before erasing it

---
 lib/Distribution/embedDB.c | 20 ++++++++++++--------
 src/embedDB/embedDB.c      | 20 ++++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 4d8a082..c90ec41 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2741,6 +2741,15 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        // Last page that is deleted
+        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
+
+        // Read in that page before it is erased so we can update which records we still have the data for
+        if (readVariablePage(state, pageNum) != 0) {
+            return -1;
+        }
+        void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
+
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2749,16 +2758,11 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
             return -1;
         }
         state->numAvailVarPages += state->eraseSizeInPages;
-        // Last page that is deleted
-        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
-
-        // Read in that page so we can update which records we still have the data for
-        if (readVariablePage(state, pageNum) != 0) {
-            return -1;
-        }
-        void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
         memcpy(&state->minVarRecordId, buf, state->keySize);
         state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
+
+        // The page in the read buffer was just erased
+        state->bufferedVarPage = -1;
     }
 
     // Add logical page number to data page
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 7736765..0d6c4df 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2317,6 +2317,15 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        // Last page that is deleted
+        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
+
+        // Read in that page before it is erased so we can update which records we still have the data for
+        if (readVariablePage(state, pageNum) != 0) {
+            return -1;
+        }
+        void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
+
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2325,16 +2334,11 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
             return -1;
         }
         state->numAvailVarPages += state->eraseSizeInPages;
-        // Last page that is deleted
-        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
-
-        // Read in that page so we can update which records we still have the data for
-        if (readVariablePage(state, pageNum) != 0) {
-            return -1;
-        }
-        void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
         memcpy(&state->minVarRecordId, buf, state->keySize);
         state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
+
+        // The page in the read buffer was just erased
+        state->bufferedVarPage = -1;
     }
 
     // Add logical page number to data page
-- 
2.43.0


From 3a8ad6c2ae30b32b26b3dd51a5ef2b04b375d091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 15/76] fix: write variable data to storage before the records
 that refer to it

---
 lib/Distribution/embedDB.c | 201 +++++++++++++++++++++++++------------
 src/embedDB/embedDB.c      | 201 +++++++++++++++++++++++++------------
 2 files changed, 278 insertions(+), 124 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index c90ec41..ec08a46 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -490,6 +490,10 @@ void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
 void initIndexWriteBuffer(embedDBState *state, id_t firstDataPageId);
 int8_t readIndexBitmap(embedDBState *state, id_t dataPageId, void **bitmap);
+int8_t checkKeyOrder(embedDBState *state, void *key);
+int8_t insertRecord(embedDBState *state, void *key, void *data, uint32_t varDataLocation);
+int8_t writeVarData(embedDBState *state, void *key, void *variableData, uint32_t length);
+int8_t advanceVarPage(embedDBState *state);
 
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
@@ -1526,15 +1530,12 @@ void indexPage(embedDBState *state, uint32_t pageNumber) {
 }
 
 /**
- * @brief	Puts a given key, data pair into structure.
+ * @brief	Checks that a key is larger than all the keys that were inserted before.
  * @param	state	embedDB algorithm state structure
- * @param	key		Key for record
- * @param	data	Data for record
- * @return	Return 0 if success. Non-zero value if error.
+ * @param	key		Key to check
+ * @return	Return 0 if it is, 1 if it is not and -1 if the last page could not be read.
  */
-int8_t embedDBPut(embedDBState *state, void *key, void *data) {
-    /* Copy record into block */
-
+int8_t checkKeyOrder(embedDBState *state, void *key) {
     count_t count = EMBEDDB_GET_COUNT(state->buffer);
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
@@ -1558,6 +1559,41 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
         }
     }
 
+    return 0;
+}
+
+/**
+ * @brief	Puts a given key, data pair into structure.
+ * @param	state	embedDB algorithm state structure
+ * @param	key		Key for record
+ * @param	data	Data for record
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t embedDBPut(embedDBState *state, void *key, void *data) {
+    int8_t r;
+    if ((r = checkKeyOrder(state, key)) != 0) {
+        return r;
+    }
+
+    /* The variable data of the records on a page has to be in storage before the page is */
+    if (EMBEDDB_USING_VDATA(state->parameters) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && embedDBFlushVar(state) != 0) {
+        return -1;
+    }
+
+    return insertRecord(state, key, data, EMBEDDB_NO_VAR_DATA);
+}
+
+/**
+ * @brief	Copies a record onto the data page in the write buffer, writing the page to storage first if it is full.
+ * @param	state			embedDB algorithm state structure
+ * @param	key				Key for record, larger than all the keys that were inserted before
+ * @param	data			Data for record
+ * @param	varDataLocation	Location of the variable data for the record or EMBEDDB_NO_VAR_DATA
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t insertRecord(embedDBState *state, void *key, void *data, uint32_t varDataLocation) {
+    count_t count = EMBEDDB_GET_COUNT(state->buffer);
+
     /* Write current page if full */
     if (count >= state->maxRecordsPerPage) {
         // As the first buffer is the data write buffer, no manipulation is required
@@ -1596,13 +1632,7 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
     /* Copy variable data offset if using variable data*/
     if (EMBEDDB_USING_VDATA(state->parameters)) {
-        uint32_t dataLocation;
-        if (state->recordHasVarData) {
-            dataLocation = state->currentVarLoc % (state->numVarPages * state->pageSize);
-        } else {
-            dataLocation = EMBEDDB_NO_VAR_DATA;
-        }
-        memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize + state->dataSize, &dataLocation, sizeof(uint32_t));
+        memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize + state->dataSize, &varDataLocation, sizeof(uint32_t));
     }
 
     /* Update count */
@@ -1728,30 +1758,53 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         return -1;
     }
 
-    // Insert their data
+    int8_t r;
+    if ((r = checkKeyOrder(state, key)) != 0) {
+        return r;
+    }
 
-    /*
-     * Check that there is enough space remaining in this page to start the insert of the variable
-     * data here and if the data page will be written in embedDBGet
-     */
-    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
-        writeVariablePage(state, buf);
-        initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-        // Move data writing location to the beginning of the next page, leaving the room for the header
-        state->currentVarLoc += state->pageSize - state->currentVarLoc % state->pageSize + state->variableDataHeaderSize;
+    // If the data page will be written by this insert, the variable data of its records has to be in storage before that
+    if (EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && advanceVarPage(state) != 0) {
+        return -1;
     }
 
     if (variableData == NULL) {
         // Var data enabled, but not provided
-        state->recordHasVarData = 0;
-        return embedDBPut(state, key, data);
+        return insertRecord(state, key, data, EMBEDDB_NO_VAR_DATA);
+    }
+
+    // Check that there is enough space remaining in this page to start the insert of the variable data here
+    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 && advanceVarPage(state) != 0) {
+        return -1;
+    }
+
+    // State to return to if the record can't be inserted
+    int8_t *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+    id_t startPageId = state->nextVarPageId;
+    id_t startLoc = state->currentVarLoc;
+    uint64_t previousKey = 0;
+    memcpy(&previousKey, buf + sizeof(id_t), state->keySize);
+
+    // Write the variable data before the record, so that a record in storage never refers to data that is not
+    r = writeVarData(state, key, variableData, length);
+    if (r == 0 && EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
+        r = embedDBFlushVar(state);
     }
 
     // Perform the regular insert
-    state->recordHasVarData = 1;
-    int8_t r;
-    if ((r = embedDBPut(state, key, data)) != 0) {
+    if (r == 0) {
+        r = insertRecord(state, key, data, startLoc % (state->numVarPages * state->pageSize));
+    }
+
+    if (r != 0) {
+        // Remove the variable data of the record that was not inserted from the buffer
+        if (state->nextVarPageId == startPageId) {
+            state->currentVarLoc = startLoc;
+            memcpy(buf + sizeof(id_t), &previousKey, state->keySize);
+        } else {
+            initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+            state->currentVarLoc = state->nextVarPageId % state->numVarPages * state->pageSize + state->variableDataHeaderSize;
+        }
         return r;
     }
 
@@ -1759,47 +1812,77 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         memcpy(&state->minVarRecordId, key, state->keySize);
     }
 
+    return 0;
+}
+
+/**
+ * @brief	Copies variable data to the variable data write buffer, writing the pages that fill up to storage.
+ * @param	state			embedDB algorithm state structure
+ * @param	key				Key for record
+ * @param	variableData	Variable length data for record
+ * @param	length			Length of the variable length data in bytes
+ * @return	Return 0 if success and -1 if a page could not be written.
+ */
+int8_t writeVarData(embedDBState *state, void *key, void *variableData, uint32_t length) {
+    int8_t *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+
     // Update the header to include the maximum key value stored on this page
-    memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
+    memcpy(buf + sizeof(id_t), key, state->keySize);
 
     // Write the length of the data item into the buffer
-    memcpy((uint8_t *)buf + state->currentVarLoc % state->pageSize, &length, sizeof(uint32_t));
+    memcpy(buf + state->currentVarLoc % state->pageSize, &length, sizeof(uint32_t));
     state->currentVarLoc += 4;
 
     // Check if we need to write after doing that
     if (state->currentVarLoc % state->pageSize == 0) {
-        writeVariablePage(state, buf);
-        initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+        if (advanceVarPage(state) != 0)
+            return -1;
 
         // Update the header to include the maximum key value stored on this page
-        memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
-        state->currentVarLoc += state->variableDataHeaderSize;
+        memcpy(buf + sizeof(id_t), key, state->keySize);
     }
 
-    int amtWritten = 0;
+    uint32_t amtWritten = 0;
     while (length > 0) {
         // Copy data into the buffer. Write the min of the space left in this page and the remaining length of the data
         uint16_t amtToWrite = min(state->pageSize - state->currentVarLoc % state->pageSize, length);
-        memcpy((uint8_t *)buf + (state->currentVarLoc % state->pageSize), (uint8_t *)variableData + amtWritten, amtToWrite);
+        memcpy(buf + (state->currentVarLoc % state->pageSize), (uint8_t *)variableData + amtWritten, amtToWrite);
         length -= amtToWrite;
         amtWritten += amtToWrite;
         state->currentVarLoc += amtToWrite;
 
         // If we need to write the buffer to file
         if (state->currentVarLoc % state->pageSize == 0) {
-            writeVariablePage(state, buf);
-            initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+            if (advanceVarPage(state) != 0)
+                return -1;
 
             // Update the header to include the maximum key value stored on this page and account for page number
-            memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
-            state->currentVarLoc += state->variableDataHeaderSize;
+            memcpy(buf + sizeof(id_t), key, state->keySize);
         }
     }
 
-    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        embedDBFlushVar(state);
+    return 0;
+}
+
+/**
+ * @brief	Writes the variable data write buffer to storage if there is any data in it and moves on to the next page.
+ * @param	state	embedDB algorithm state structure
+ * @return	Return 0 if success and -1 if the page could not be written.
+ */
+int8_t advanceVarPage(embedDBState *state) {
+    /* Check if we actually have any variable data in the buffer */
+    if (state->currentVarLoc % state->pageSize == state->variableDataHeaderSize) {
+        return 0;
     }
 
+    if (writeVariablePage(state, (int8_t *)state->buffer + EMBEDDB_VAR_WRITE_BUFFER(state->parameters) * state->pageSize) == -1) {
+        return -1;
+    }
+
+    // init new buffer
+    initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+    // Move data writing location to the beginning of the next page, leaving the room for the header
+    state->currentVarLoc = state->nextVarPageId % state->numVarPages * state->pageSize + state->variableDataHeaderSize;
     return 0;
 }
 
@@ -2180,8 +2263,7 @@ int8_t embedDBFlushVar(embedDBState *state) {
     }
 
     // only flush variable buffer
-    id_t writeResult = writeVariablePage(state, (int8_t *)state->buffer + EMBEDDB_VAR_WRITE_BUFFER(state->parameters) * state->pageSize);
-    if (writeResult == -1) {
+    if (advanceVarPage(state) != 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to write variable data page during embedDBFlushVar.");
 #endif
@@ -2189,12 +2271,6 @@ int8_t embedDBFlushVar(embedDBState *state) {
     }
 
     state->fileInterface->flush(state->varFile);
-    // init new buffer
-    initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    // determine how many bytes are left
-    int temp = state->pageSize - (state->currentVarLoc % state->pageSize);
-    // create new offset
-    state->currentVarLoc += temp + state->variableDataHeaderSize;
     return 0;
 }
 
@@ -2209,6 +2285,17 @@ int8_t embedDBFlush(embedDBState *state) {
     if (EMBEDDB_GET_COUNT(buffer) < 1)
         return 0;
 
+    // Flush var data page. It has to be in storage before the records that refer to it
+    if (EMBEDDB_USING_VDATA(state->parameters)) {
+        int8_t varFlushResult = embedDBFlushVar(state);
+        if (varFlushResult != 0) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush variable data page");
+#endif
+            return -1;
+        }
+    }
+
     id_t pageNum = writePage(state, buffer);
     if (pageNum == -1) {
 #ifdef PRINT_ERRORS
@@ -2260,16 +2347,6 @@ int8_t embedDBFlush(embedDBState *state) {
     /* Reinitialize buffer */
     initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
 
-    // Flush var data page
-    if (EMBEDDB_USING_VDATA(state->parameters)) {
-        int8_t varFlushResult = embedDBFlushVar(state);
-        if (varFlushResult != 0) {
-#ifdef PRINT_ERRORS
-            printf("Failed to flush variable data page");
-#endif
-            return -1;
-        }
-    }
     return 0;
 }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 0d6c4df..a6c97f1 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -66,6 +66,10 @@ void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
 void initIndexWriteBuffer(embedDBState *state, id_t firstDataPageId);
 int8_t readIndexBitmap(embedDBState *state, id_t dataPageId, void **bitmap);
+int8_t checkKeyOrder(embedDBState *state, void *key);
+int8_t insertRecord(embedDBState *state, void *key, void *data, uint32_t varDataLocation);
+int8_t writeVarData(embedDBState *state, void *key, void *variableData, uint32_t length);
+int8_t advanceVarPage(embedDBState *state);
 
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
@@ -1102,15 +1106,12 @@ void indexPage(embedDBState *state, uint32_t pageNumber) {
 }
 
 /**
- * @brief	Puts a given key, data pair into structure.
+ * @brief	Checks that a key is larger than all the keys that were inserted before.
  * @param	state	embedDB algorithm state structure
- * @param	key		Key for record
- * @param	data	Data for record
- * @return	Return 0 if success. Non-zero value if error.
+ * @param	key		Key to check
+ * @return	Return 0 if it is, 1 if it is not and -1 if the last page could not be read.
  */
-int8_t embedDBPut(embedDBState *state, void *key, void *data) {
-    /* Copy record into block */
-
+int8_t checkKeyOrder(embedDBState *state, void *key) {
     count_t count = EMBEDDB_GET_COUNT(state->buffer);
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
@@ -1134,6 +1135,41 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
         }
     }
 
+    return 0;
+}
+
+/**
+ * @brief	Puts a given key, data pair into structure.
+ * @param	state	embedDB algorithm state structure
+ * @param	key		Key for record
+ * @param	data	Data for record
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t embedDBPut(embedDBState *state, void *key, void *data) {
+    int8_t r;
+    if ((r = checkKeyOrder(state, key)) != 0) {
+        return r;
+    }
+
+    /* The variable data of the records on a page has to be in storage before the page is */
+    if (EMBEDDB_USING_VDATA(state->parameters) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && embedDBFlushVar(state) != 0) {
+        return -1;
+    }
+
+    return insertRecord(state, key, data, EMBEDDB_NO_VAR_DATA);
+}
+
+/**
+ * @brief	Copies a record onto the data page in the write buffer, writing the page to storage first if it is full.
+ * @param	state			embedDB algorithm state structure
+ * @param	key				Key for record, larger than all the keys that were inserted before
+ * @param	data			Data for record
+ * @param	varDataLocation	Location of the variable data for the record or EMBEDDB_NO_VAR_DATA
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t insertRecord(embedDBState *state, void *key, void *data, uint32_t varDataLocation) {
+    count_t count = EMBEDDB_GET_COUNT(state->buffer);
+
     /* Write current page if full */
     if (count >= state->maxRecordsPerPage) {
         // As the first buffer is the data write buffer, no manipulation is required
@@ -1172,13 +1208,7 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
     /* Copy variable data offset if using variable data*/
     if (EMBEDDB_USING_VDATA(state->parameters)) {
-        uint32_t dataLocation;
-        if (state->recordHasVarData) {
-            dataLocation = state->currentVarLoc % (state->numVarPages * state->pageSize);
-        } else {
-            dataLocation = EMBEDDB_NO_VAR_DATA;
-        }
-        memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize + state->dataSize, &dataLocation, sizeof(uint32_t));
+        memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize + state->dataSize, &varDataLocation, sizeof(uint32_t));
     }
 
     /* Update count */
@@ -1304,30 +1334,53 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         return -1;
     }
 
-    // Insert their data
+    int8_t r;
+    if ((r = checkKeyOrder(state, key)) != 0) {
+        return r;
+    }
 
-    /*
-     * Check that there is enough space remaining in this page to start the insert of the variable
-     * data here and if the data page will be written in embedDBGet
-     */
-    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
-        writeVariablePage(state, buf);
-        initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-        // Move data writing location to the beginning of the next page, leaving the room for the header
-        state->currentVarLoc += state->pageSize - state->currentVarLoc % state->pageSize + state->variableDataHeaderSize;
+    // If the data page will be written by this insert, the variable data of its records has to be in storage before that
+    if (EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && advanceVarPage(state) != 0) {
+        return -1;
     }
 
     if (variableData == NULL) {
         // Var data enabled, but not provided
-        state->recordHasVarData = 0;
-        return embedDBPut(state, key, data);
+        return insertRecord(state, key, data, EMBEDDB_NO_VAR_DATA);
+    }
+
+    // Check that there is enough space remaining in this page to start the insert of the variable data here
+    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 && advanceVarPage(state) != 0) {
+        return -1;
+    }
+
+    // State to return to if the record can't be inserted
+    int8_t *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+    id_t startPageId = state->nextVarPageId;
+    id_t startLoc = state->currentVarLoc;
+    uint64_t previousKey = 0;
+    memcpy(&previousKey, buf + sizeof(id_t), state->keySize);
+
+    // Write the variable data before the record, so that a record in storage never refers to data that is not
+    r = writeVarData(state, key, variableData, length);
+    if (r == 0 && EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
+        r = embedDBFlushVar(state);
     }
 
     // Perform the regular insert
-    state->recordHasVarData = 1;
-    int8_t r;
-    if ((r = embedDBPut(state, key, data)) != 0) {
+    if (r == 0) {
+        r = insertRecord(state, key, data, startLoc % (state->numVarPages * state->pageSize));
+    }
+
+    if (r != 0) {
+        // Remove the variable data of the record that was not inserted from the buffer
+        if (state->nextVarPageId == startPageId) {
+            state->currentVarLoc = startLoc;
+            memcpy(buf + sizeof(id_t), &previousKey, state->keySize);
+        } else {
+            initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+            state->currentVarLoc = state->nextVarPageId % state->numVarPages * state->pageSize + state->variableDataHeaderSize;
+        }
         return r;
     }
 
@@ -1335,47 +1388,77 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         memcpy(&state->minVarRecordId, key, state->keySize);
     }
 
+    return 0;
+}
+
+/**
+ * @brief	Copies variable data to the variable data write buffer, writing the pages that fill up to storage.
+ * @param	state			embedDB algorithm state structure
+ * @param	key				Key for record
+ * @param	variableData	Variable length data for record
+ * @param	length			Length of the variable length data in bytes
+ * @return	Return 0 if success and -1 if a page could not be written.
+ */
+int8_t writeVarData(embedDBState *state, void *key, void *variableData, uint32_t length) {
+    int8_t *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+
     // Update the header to include the maximum key value stored on this page
-    memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
+    memcpy(buf + sizeof(id_t), key, state->keySize);
 
     // Write the length of the data item into the buffer
-    memcpy((uint8_t *)buf + state->currentVarLoc % state->pageSize, &length, sizeof(uint32_t));
+    memcpy(buf + state->currentVarLoc % state->pageSize, &length, sizeof(uint32_t));
     state->currentVarLoc += 4;
 
     // Check if we need to write after doing that
     if (state->currentVarLoc % state->pageSize == 0) {
-        writeVariablePage(state, buf);
-        initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+        if (advanceVarPage(state) != 0)
+            return -1;
 
         // Update the header to include the maximum key value stored on this page
-        memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
-        state->currentVarLoc += state->variableDataHeaderSize;
+        memcpy(buf + sizeof(id_t), key, state->keySize);
     }
 
-    int amtWritten = 0;
+    uint32_t amtWritten = 0;
     while (length > 0) {
         // Copy data into the buffer. Write the min of the space left in this page and the remaining length of the data
         uint16_t amtToWrite = min(state->pageSize - state->currentVarLoc % state->pageSize, length);
-        memcpy((uint8_t *)buf + (state->currentVarLoc % state->pageSize), (uint8_t *)variableData + amtWritten, amtToWrite);
+        memcpy(buf + (state->currentVarLoc % state->pageSize), (uint8_t *)variableData + amtWritten, amtToWrite);
         length -= amtToWrite;
         amtWritten += amtToWrite;
         state->currentVarLoc += amtToWrite;
 
         // If we need to write the buffer to file
         if (state->currentVarLoc % state->pageSize == 0) {
-            writeVariablePage(state, buf);
-            initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+            if (advanceVarPage(state) != 0)
+                return -1;
 
             // Update the header to include the maximum key value stored on this page and account for page number
-            memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
-            state->currentVarLoc += state->variableDataHeaderSize;
+            memcpy(buf + sizeof(id_t), key, state->keySize);
         }
     }
 
-    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        embedDBFlushVar(state);
+    return 0;
+}
+
+/**
+ * @brief	Writes the variable data write buffer to storage if there is any data in it and moves on to the next page.
+ * @param	state	embedDB algorithm state structure
+ * @return	Return 0 if success and -1 if the page could not be written.
+ */
+int8_t advanceVarPage(embedDBState *state) {
+    /* Check if we actually have any variable data in the buffer */
+    if (state->currentVarLoc % state->pageSize == state->variableDataHeaderSize) {
+        return 0;
     }
 
+    if (writeVariablePage(state, (int8_t *)state->buffer + EMBEDDB_VAR_WRITE_BUFFER(state->parameters) * state->pageSize) == -1) {
+        return -1;
+    }
+
+    // init new buffer
+    initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+    // Move data writing location to the beginning of the next page, leaving the room for the header
+    state->currentVarLoc = state->nextVarPageId % state->numVarPages * state->pageSize + state->variableDataHeaderSize;
     return 0;
 }
 
@@ -1756,8 +1839,7 @@ int8_t embedDBFlushVar(embedDBState *state) {
     }
 
     // only flush variable buffer
-    id_t writeResult = writeVariablePage(state, (int8_t *)state->buffer + EMBEDDB_VAR_WRITE_BUFFER(state->parameters) * state->pageSize);
-    if (writeResult == -1) {
+    if (advanceVarPage(state) != 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to write variable data page during embedDBFlushVar.");
 #endif
@@ -1765,12 +1847,6 @@ int8_t embedDBFlushVar(embedDBState *state) {
     }
 
     state->fileInterface->flush(state->varFile);
-    // init new buffer
-    initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    // determine how many bytes are left
-    int temp = state->pageSize - (state->currentVarLoc % state->pageSize);
-    // create new offset
-    state->currentVarLoc += temp + state->variableDataHeaderSize;
     return 0;
 }
 
@@ -1785,6 +1861,17 @@ int8_t embedDBFlush(embedDBState *state) {
     if (EMBEDDB_GET_COUNT(buffer) < 1)
         return 0;
 
+    // Flush var data page. It has to be in storage before the records that refer to it
+    if (EMBEDDB_USING_VDATA(state->parameters)) {
+        int8_t varFlushResult = embedDBFlushVar(state);
+        if (varFlushResult != 0) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush variable data page");
+#endif
+            return -1;
+        }
+    }
+
     id_t pageNum = writePage(state, buffer);
     if (pageNum == -1) {
 #ifdef PRINT_ERRORS
@@ -1836,16 +1923,6 @@ int8_t embedDBFlush(embedDBState *state) {
     /* Reinitialize buffer */
     initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
 
-    // Flush var data page
-    if (EMBEDDB_USING_VDATA(state->parameters)) {
-        int8_t varFlushResult = embedDBFlushVar(state);
-        if (varFlushResult != 0) {
-#ifdef PRINT_ERRORS
-            printf("Failed to flush variable data page");
-#endif
-            return -1;
-        }
-    }
     return 0;
 }
 
-- 
2.43.0


From 6f419d99b5db4bb98b502237ad7d526e24a51d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 16/76] fix: report failed writes and erases and keep the
 database consistent after them

---
 lib/Distribution/embedDB.c | 89 +++++++++++++++++++++++++-------------
 src/embedDB/embedDB.c      | 89 +++++++++++++++++++++++++-------------
 2 files changed, 118 insertions(+), 60 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index ec08a46..76c4868 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -494,6 +494,7 @@ int8_t checkKeyOrder(embedDBState *state, void *key);
 int8_t insertRecord(embedDBState *state, void *key, void *data, uint32_t varDataLocation);
 int8_t writeVarData(embedDBState *state, void *key, void *variableData, uint32_t length);
 int8_t advanceVarPage(embedDBState *state);
+int8_t writeFullIndexPage(embedDBState *state);
 
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
@@ -1596,8 +1597,16 @@ int8_t insertRecord(embedDBState *state, void *key, void *data, uint32_t varData
 
     /* Write current page if full */
     if (count >= state->maxRecordsPerPage) {
+        /* Save index page if there is no room for the bitmap of this page */
+        if (state->indexFile != NULL && writeFullIndexPage(state) != 0) {
+            return -1;
+        }
+
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
+        if (pageNum == -1) {
+            return -1;
+        }
 
         indexPage(state, pageNum);
 
@@ -1605,13 +1614,6 @@ int8_t insertRecord(embedDBState *state, void *key, void *data, uint32_t varData
         if (state->indexFile != NULL) {
             void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
             count_t idxcount = EMBEDDB_GET_COUNT(buf);
-            if (idxcount >= state->maxIdxRecordsPerPage) {
-                /* Save index page */
-                writeIndexPage(state, buf);
-
-                idxcount = 0;
-                initIndexWriteBuffer(state, pageNum);
-            }
 
             EMBEDDB_INC_COUNT(buf);
 
@@ -1676,11 +1678,19 @@ int8_t insertRecord(embedDBState *state, void *key, void *data, uint32_t varData
     /* If using record level consistency, we need to immediately write the updated page to storage */
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
         /* Need to move record level consistency pointers if the next data page would be written to the block they start in */
+        int8_t r = 0;
         if (state->nextDataPageId % state->numDataPages == state->rlcPhysicalStartingPage) {
             /* move record-level consistency blocks */
-            shiftRecordLevelConsistencyBlocks(state);
+            r = shiftRecordLevelConsistencyBlocks(state);
+        }
+        if (r == 0) {
+            r = writeTemporaryPage(state, state->buffer);
+        }
+        if (r != 0) {
+            /* The record is not in storage, so it must not stay in the buffer either */
+            EMBEDDB_GET_COUNT(state->buffer) = count;
         }
-        return writeTemporaryPage(state, state->buffer);
+        return r;
     }
 
     return 0;
@@ -2296,6 +2306,11 @@ int8_t embedDBFlush(embedDBState *state) {
         }
     }
 
+    /* Save index page if there is no room for the bitmap of this page */
+    if (EMBEDDB_USING_INDEX(state->parameters) && writeFullIndexPage(state) != 0) {
+        return -1;
+    }
+
     id_t pageNum = writePage(state, buffer);
     if (pageNum == -1) {
 #ifdef PRINT_ERRORS
@@ -2308,21 +2323,10 @@ int8_t embedDBFlush(embedDBState *state) {
 
     indexPage(state, pageNum);
 
+    int8_t result = 0;
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
         count_t idxcount = EMBEDDB_GET_COUNT(buf);
-        if (idxcount >= state->maxIdxRecordsPerPage) {
-            /* Save index page */
-            if (writeIndexPage(state, buf) == -1) {
-#ifdef PRINT_ERRORS
-                printf("Failed to write index page during embedDBFlush.");
-#endif
-                return -1;
-            }
-
-            idxcount = 0;
-            initIndexWriteBuffer(state, pageNum);
-        }
 
         EMBEDDB_INC_COUNT(buf);
 
@@ -2335,11 +2339,12 @@ int8_t embedDBFlush(embedDBState *state) {
 #ifdef PRINT_ERRORS
             printf("Failed to write index page during embedDBFlush.");
 #endif
-            return -1;
+            /* The data page was written, so its records must not stay in the buffer */
+            result = -1;
+        } else {
+            state->fileInterface->flush(state->indexFile);
         }
 
-        state->fileInterface->flush(state->indexFile);
-
         /* Reinitialize buffer */
         initIndexWriteBuffer(state, state->nextDataPageId);
     }
@@ -2347,7 +2352,7 @@ int8_t embedDBFlush(embedDBState *state) {
     /* Reinitialize buffer */
     initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
 
-    return 0;
+    return result;
 }
 
 /**
@@ -2614,7 +2619,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextDataPageId++;
+    id_t pageNum = state->nextDataPageId;
     id_t physicalPageNum = pageNum % state->numDataPages;
 
     /* Setup page number in header */
@@ -2656,6 +2661,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextDataPageId++;
     state->numAvailDataPages--;
     state->numWrites++;
 
@@ -2698,8 +2704,8 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
-            return -2;
 #endif
+            return -2;
         }
     }
 
@@ -2708,14 +2714,15 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         state->bufferedPageId = -1;
 
     /* Write temporary page to storage */
-    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
+    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation, state->pageSize, state->dataFile);
     if (!writeSuccess) {
 #ifdef PRINT_ERRORS
-        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation - 1);
+        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation);
 #endif
         return -1;
     }
 
+    state->nextRLCPhysicalPageLocation++;
     return 0;
 }
 
@@ -2761,7 +2768,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextIdxPageId++;
+    id_t pageNum = state->nextIdxPageId;
     id_t physicalPageNumber = pageNum % state->numIndexPages;
 
     /* Setup page number in header */
@@ -2796,12 +2803,34 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextIdxPageId++;
     state->numAvailIndexPages--;
     state->numIdxWrites++;
 
     return pageNum;
 }
 
+/**
+ * @brief	Writes the index page in the write buffer to storage if there is no room for another bitmap on it.
+ * @param	state	embedDB algorithm state structure
+ * @return	Return 0 if success and -1 if the page could not be written.
+ */
+int8_t writeFullIndexPage(embedDBState *state) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
+    if (EMBEDDB_GET_COUNT(buf) < state->maxIdxRecordsPerPage)
+        return 0;
+
+    if (writeIndexPage(state, buf) == -1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to write index page.");
+#endif
+        return -1;
+    }
+
+    initIndexWriteBuffer(state, state->nextDataPageId);
+    return 0;
+}
+
 /**
  * @brief	Writes variable data page in buffer to storage. Returns page number.
  * @param	state	embedDB algorithm state structure
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index a6c97f1..68aedb6 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -70,6 +70,7 @@ int8_t checkKeyOrder(embedDBState *state, void *key);
 int8_t insertRecord(embedDBState *state, void *key, void *data, uint32_t varDataLocation);
 int8_t writeVarData(embedDBState *state, void *key, void *variableData, uint32_t length);
 int8_t advanceVarPage(embedDBState *state);
+int8_t writeFullIndexPage(embedDBState *state);
 
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
@@ -1172,8 +1173,16 @@ int8_t insertRecord(embedDBState *state, void *key, void *data, uint32_t varData
 
     /* Write current page if full */
     if (count >= state->maxRecordsPerPage) {
+        /* Save index page if there is no room for the bitmap of this page */
+        if (state->indexFile != NULL && writeFullIndexPage(state) != 0) {
+            return -1;
+        }
+
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
+        if (pageNum == -1) {
+            return -1;
+        }
 
         indexPage(state, pageNum);
 
@@ -1181,13 +1190,6 @@ int8_t insertRecord(embedDBState *state, void *key, void *data, uint32_t varData
         if (state->indexFile != NULL) {
             void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
             count_t idxcount = EMBEDDB_GET_COUNT(buf);
-            if (idxcount >= state->maxIdxRecordsPerPage) {
-                /* Save index page */
-                writeIndexPage(state, buf);
-
-                idxcount = 0;
-                initIndexWriteBuffer(state, pageNum);
-            }
 
             EMBEDDB_INC_COUNT(buf);
 
@@ -1252,11 +1254,19 @@ int8_t insertRecord(embedDBState *state, void *key, void *data, uint32_t varData
     /* If using record level consistency, we need to immediately write the updated page to storage */
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
         /* Need to move record level consistency pointers if the next data page would be written to the block they start in */
+        int8_t r = 0;
         if (state->nextDataPageId % state->numDataPages == state->rlcPhysicalStartingPage) {
             /* move record-level consistency blocks */
-            shiftRecordLevelConsistencyBlocks(state);
+            r = shiftRecordLevelConsistencyBlocks(state);
+        }
+        if (r == 0) {
+            r = writeTemporaryPage(state, state->buffer);
+        }
+        if (r != 0) {
+            /* The record is not in storage, so it must not stay in the buffer either */
+            EMBEDDB_GET_COUNT(state->buffer) = count;
         }
-        return writeTemporaryPage(state, state->buffer);
+        return r;
     }
 
     return 0;
@@ -1872,6 +1882,11 @@ int8_t embedDBFlush(embedDBState *state) {
         }
     }
 
+    /* Save index page if there is no room for the bitmap of this page */
+    if (EMBEDDB_USING_INDEX(state->parameters) && writeFullIndexPage(state) != 0) {
+        return -1;
+    }
+
     id_t pageNum = writePage(state, buffer);
     if (pageNum == -1) {
 #ifdef PRINT_ERRORS
@@ -1884,21 +1899,10 @@ int8_t embedDBFlush(embedDBState *state) {
 
     indexPage(state, pageNum);
 
+    int8_t result = 0;
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
         count_t idxcount = EMBEDDB_GET_COUNT(buf);
-        if (idxcount >= state->maxIdxRecordsPerPage) {
-            /* Save index page */
-            if (writeIndexPage(state, buf) == -1) {
-#ifdef PRINT_ERRORS
-                printf("Failed to write index page during embedDBFlush.");
-#endif
-                return -1;
-            }
-
-            idxcount = 0;
-            initIndexWriteBuffer(state, pageNum);
-        }
 
         EMBEDDB_INC_COUNT(buf);
 
@@ -1911,11 +1915,12 @@ int8_t embedDBFlush(embedDBState *state) {
 #ifdef PRINT_ERRORS
             printf("Failed to write index page during embedDBFlush.");
 #endif
-            return -1;
+            /* The data page was written, so its records must not stay in the buffer */
+            result = -1;
+        } else {
+            state->fileInterface->flush(state->indexFile);
         }
 
-        state->fileInterface->flush(state->indexFile);
-
         /* Reinitialize buffer */
         initIndexWriteBuffer(state, state->nextDataPageId);
     }
@@ -1923,7 +1928,7 @@ int8_t embedDBFlush(embedDBState *state) {
     /* Reinitialize buffer */
     initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
 
-    return 0;
+    return result;
 }
 
 /**
@@ -2190,7 +2195,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextDataPageId++;
+    id_t pageNum = state->nextDataPageId;
     id_t physicalPageNum = pageNum % state->numDataPages;
 
     /* Setup page number in header */
@@ -2232,6 +2237,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextDataPageId++;
     state->numAvailDataPages--;
     state->numWrites++;
 
@@ -2274,8 +2280,8 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
-            return -2;
 #endif
+            return -2;
         }
     }
 
@@ -2284,14 +2290,15 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         state->bufferedPageId = -1;
 
     /* Write temporary page to storage */
-    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
+    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation, state->pageSize, state->dataFile);
     if (!writeSuccess) {
 #ifdef PRINT_ERRORS
-        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation - 1);
+        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation);
 #endif
         return -1;
     }
 
+    state->nextRLCPhysicalPageLocation++;
     return 0;
 }
 
@@ -2337,7 +2344,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextIdxPageId++;
+    id_t pageNum = state->nextIdxPageId;
     id_t physicalPageNumber = pageNum % state->numIndexPages;
 
     /* Setup page number in header */
@@ -2372,12 +2379,34 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextIdxPageId++;
     state->numAvailIndexPages--;
     state->numIdxWrites++;
 
     return pageNum;
 }
 
+/**
+ * @brief	Writes the index page in the write buffer to storage if there is no room for another bitmap on it.
+ * @param	state	embedDB algorithm state structure
+ * @return	Return 0 if success and -1 if the page could not be written.
+ */
+int8_t writeFullIndexPage(embedDBState *state) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
+    if (EMBEDDB_GET_COUNT(buf) < state->maxIdxRecordsPerPage)
+        return 0;
+
+    if (writeIndexPage(state, buf) == -1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to write index page.");
+#endif
+        return -1;
+    }
+
+    initIndexWriteBuffer(state, state->nextDataPageId);
+    return 0;
+}
+
 /**
  * @brief	Writes variable data page in buffer to storage. Returns page number.
  * @param	state	embedDB algorithm state structure
-- 
2.43.0


From de031c438b1c323638bd1d6077c1a3355e0202d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 17/76] fix: guard the slope of an empty page in the
 distribution as in the modular sources

---
 lib/Distribution/embedDB.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 76c4868..1043372 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1417,6 +1417,7 @@ float embedDBCalculateSlope(embedDBState *state, void *buffer) {
     uint32_t slopeX1, slopeX2;
     slopeX1 = 0;
     slopeX2 = EMBEDDB_GET_COUNT(buffer) - 1;
+    if (EMBEDDB_GET_COUNT(buffer) == 0) slopeX2 = 0;
 
     if (state->keySize <= 4) {
         uint32_t slopeY1 = 0, slopeY2 = 0;
-- 
2.43.0


From b6463448ddedb1caa1d40ad7383e45e636c2c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 18/76] fix: bitmaps of 16 and 64 buckets exclude no matching
 values

---
 lib/Distribution/embedDB.c           | 56 ++++++++++++++--------------
 lib/EmbedDB-Utility/embedDBUtility.c | 56 ++++++++++++++--------------
 2 files changed, 58 insertions(+), 54 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 1043372..3944316 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4507,12 +4507,11 @@ void updateBitmapInt16(void *data, void *bm) {
     int16_t minBase = 320;
     int32_t current = minBase;
     uint16_t num = 32768;
-    while (val > current) {
+    /* Always set last bit if value bigger than largest cutoff */
+    while (val > current && num > 1) {
         current += stepSize;
         num = num / 2;
     }
-    if (num == 0)
-        num = 1; /* Always set last bit if value bigger than largest cutoff */
     *bmval = *bmval | num;
 }
 
@@ -4522,8 +4521,8 @@ int8_t inBitmapInt16(void *data, void *bm) {
     uint16_t tmpbm = 0;
     updateBitmapInt16(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -4587,8 +4586,8 @@ int8_t inBitmapInt64(void *data, void *bm) {
     uint64_t tmpbm = 0;
     updateBitmapInt64(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -4599,30 +4598,33 @@ int8_t inBitmapInt64(void *data, void *bm) {
  * @param	bm		bitmap created
  */
 void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
-    if (min == NULL && max == NULL) {
-        *(uint64_t *)bm = UINT64_MAX; /* Everything */
-        return;
-    } else {
-        uint64_t minMap = 0, maxMap = 0;
-        if (min != NULL) {
-            updateBitmapInt64(min, &minMap);
-            // Turn on all bits below the bit for min value (cause the lsb are for the higher values)
-            minMap = minMap | (minMap - 1);
-            if (max == NULL) {
-                *(uint64_t *)bm = minMap;
-                return;
+    // The buckets are ordered from the msb of the first byte to the lsb of the last byte
+    uint8_t minMap[8] = {0}, maxMap[8] = {0};
+    uint8_t *bmval = (uint8_t *)bm;
+    memset(bmval, 255, 8); /* Everything */
+    if (min != NULL) {
+        updateBitmapInt64(min, minMap);
+        // Turn off all bits above the bit for min value (cause the msb are for the lower values)
+        for (int8_t i = 0; i < 8; i++) {
+            if (minMap[i] == 0) {
+                bmval[i] = 0;
+            } else {
+                bmval[i] = minMap[i] | (minMap[i] - 1);
+                break;
             }
         }
-        if (max != NULL) {
-            updateBitmapInt64(max, &maxMap);
-            // Turn on all bits above the bit for max value (cause the msb are for the lower values)
-            maxMap = ~(maxMap - 1);
-            if (min == NULL) {
-                *(uint64_t *)bm = maxMap;
-                return;
+    }
+    if (max != NULL) {
+        updateBitmapInt64(max, maxMap);
+        // Turn off all bits below the bit for max value (cause the lsb are for the higher values)
+        for (int8_t i = 7; i >= 0; i--) {
+            if (maxMap[i] == 0) {
+                bmval[i] = 0;
+            } else {
+                bmval[i] &= ~(maxMap[i] - 1);
+                break;
             }
         }
-        *(uint64_t *)bm = minMap & maxMap;
     }
 }
 
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index e633364..8f41a4f 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -113,12 +113,11 @@ void updateBitmapInt16(void *data, void *bm) {
     int16_t minBase = 320;
     int32_t current = minBase;
     uint16_t num = 32768;
-    while (val > current) {
+    /* Always set last bit if value bigger than largest cutoff */
+    while (val > current && num > 1) {
         current += stepSize;
         num = num / 2;
     }
-    if (num == 0)
-        num = 1; /* Always set last bit if value bigger than largest cutoff */
     *bmval = *bmval | num;
 }
 
@@ -128,8 +127,8 @@ int8_t inBitmapInt16(void *data, void *bm) {
     uint16_t tmpbm = 0;
     updateBitmapInt16(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -193,8 +192,8 @@ int8_t inBitmapInt64(void *data, void *bm) {
     uint64_t tmpbm = 0;
     updateBitmapInt64(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -205,30 +204,33 @@ int8_t inBitmapInt64(void *data, void *bm) {
  * @param	bm		bitmap created
  */
 void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
-    if (min == NULL && max == NULL) {
-        *(uint64_t *)bm = UINT64_MAX; /* Everything */
-        return;
-    } else {
-        uint64_t minMap = 0, maxMap = 0;
-        if (min != NULL) {
-            updateBitmapInt64(min, &minMap);
-            // Turn on all bits below the bit for min value (cause the lsb are for the higher values)
-            minMap = minMap | (minMap - 1);
-            if (max == NULL) {
-                *(uint64_t *)bm = minMap;
-                return;
+    // The buckets are ordered from the msb of the first byte to the lsb of the last byte
+    uint8_t minMap[8] = {0}, maxMap[8] = {0};
+    uint8_t *bmval = (uint8_t *)bm;
+    memset(bmval, 255, 8); /* Everything */
+    if (min != NULL) {
+        updateBitmapInt64(min, minMap);
+        // Turn off all bits above the bit for min value (cause the msb are for the lower values)
+        for (int8_t i = 0; i < 8; i++) {
+            if (minMap[i] == 0) {
+                bmval[i] = 0;
+            } else {
+                bmval[i] = minMap[i] | (minMap[i] - 1);
+                break;
             }
         }
-        if (max != NULL) {
-            updateBitmapInt64(max, &maxMap);
-            // Turn on all bits above the bit for max value (cause the msb are for the lower values)
-            maxMap = ~(maxMap - 1);
-            if (min == NULL) {
-                *(uint64_t *)bm = maxMap;
-                return;
+    }
+    if (max != NULL) {
+        updateBitmapInt64(max, maxMap);
+        // Turn off all bits below the bit for max value (cause the lsb are for the higher values)
+        for (int8_t i = 7; i >= 0; i--) {
+            if (maxMap[i] == 0) {
+                bmval[i] = 0;
+            } else {
+                bmval[i] &= ~(maxMap[i] - 1);
+                break;
             }
         }
-        *(uint64_t *)bm = minMap & maxMap;
     }
 }
 
-- 
2.43.0


From 17f557c9cedeabd0ae8a13121594c6c0ce29aa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 19/76] fix: do not take an erased first variable data page for
 valid data on recovery

---
 lib/Distribution/embedDB.c | 4 ++--
 src/embedDB/embedDB.c      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 3944316..685fad1 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1266,8 +1266,8 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
                 i = 2;
                 hasData = true;
                 maxLogicalVariablePageId = logicalVariablePageId;
-                /* a page that was skipped is the one before this one unless its block was erased */
-                physicalPageIDOfSmallestData = logicalVariablePageId == 1 ? 0 : physicalVariablePageId;
+                /* a first page that was not counted as data yet is valid when this page follows it */
+                physicalPageIDOfSmallestData = firstPageMayBeValid && logicalVariablePageId == 1 ? 0 : physicalVariablePageId;
             } else {
                 firstPageMayBeValid = true;
             }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 68aedb6..986b5db 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -842,8 +842,8 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
                 i = 2;
                 hasData = true;
                 maxLogicalVariablePageId = logicalVariablePageId;
-                /* a page that was skipped is the one before this one unless its block was erased */
-                physicalPageIDOfSmallestData = logicalVariablePageId == 1 ? 0 : physicalVariablePageId;
+                /* a first page that was not counted as data yet is valid when this page follows it */
+                physicalPageIDOfSmallestData = firstPageMayBeValid && logicalVariablePageId == 1 ? 0 : physicalVariablePageId;
             } else {
                 firstPageMayBeValid = true;
             }
-- 
2.43.0


From a786d30a4872a83d2235ddadb33b3ed4e2ec9786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 20/76] fix: do not take an erased page for a page of data on
 recovery

---
 lib/Distribution/embedDB.c | 25 ++++++++++++++++++-------
 src/embedDB/embedDB.c      | 25 ++++++++++++++++++-------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 685fad1..41ca798 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -763,6 +763,17 @@ int8_t embedDBInitData(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief	Checks if a page with the given logical id belongs at a physical page. This is never the case for an erased page with all bits set.
+ * @param	logicalPageId	Logical id read from the page
+ * @param	physicalPageId	Physical page that was read
+ * @param	numPages	Number of physical pages in the file
+ * @return	Returns true if the page may hold data
+ */
+static bool isStoredAt(id_t logicalPageId, uint32_t physicalPageId, uint32_t numPages) {
+    return logicalPageId != (id_t)-1 && logicalPageId % numPages == physicalPageId;
+}
+
 /**
  * @brief	Logical page number of the newest page that can be stored at a location of a file
  * @param	physicalPageId		Location in the file
@@ -792,7 +803,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     id_t physicalPageIDOfSmallestData = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == count;
+        validData = isStoredAt(logicalPageId, count, state->numDataPages);
         numRecords = EMBEDDB_GET_COUNT(buffer);
         if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
             hasData = true;
@@ -816,7 +827,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     while (moreToRead && count < state->numDataPages) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == count;
+        validData = isStoredAt(logicalPageId, count, state->numDataPages);
         if (validData && logicalPageId == maxLogicalPageId + 1) {
             maxLogicalPageId = logicalPageId;
             physicalPageId++;
@@ -907,7 +918,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     count_t numRecords = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == count;
+        validData = isStoredAt(logicalPageId, count, state->numDataPages);
         numRecords = EMBEDDB_GET_COUNT(buffer);
         if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
             /* Setup for next loop so it does not have to worry about setting the initial values */
@@ -928,7 +939,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     if (hasPermanentData) {
         while (moreToRead && count < state->numDataPages) {
             memcpy(&logicalPageId, buffer, sizeof(id_t));
-            validData = logicalPageId % state->numDataPages == count;
+            validData = isStoredAt(logicalPageId, count, state->numDataPages);
             if (validData && logicalPageId == maxLogicalPageId + 1) {
                 maxLogicalPageId = logicalPageId;
                 physicalPageId++;
@@ -1148,7 +1159,7 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     uint32_t i = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-        validData = logicalIndexPageId % state->numIndexPages == count;
+        validData = isStoredAt(logicalIndexPageId, count, state->numIndexPages);
         numBitmaps = EMBEDDB_GET_COUNT(buffer);
         if (validData && numBitmaps > 0 && numBitmaps <= state->maxIdxRecordsPerPage) {
             hasData = true;
@@ -1253,7 +1264,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
     id_t physicalPageIDOfSmallestData = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == count;
+        validData = isStoredAt(logicalVariablePageId, count, state->numVarPages);
         if (validData) {
             uint64_t largestVarRecordId = 0;
             /* Fetch the largest key value for which we have data on this page */
@@ -1295,7 +1306,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
     while (moreToRead && count < state->numVarPages) {
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == count;
+        validData = isStoredAt(logicalVariablePageId, count, state->numVarPages);
         if (validData && logicalVariablePageId == maxLogicalVariablePageId + 1) {
             maxLogicalVariablePageId = logicalVariablePageId;
             physicalVariablePageId++;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 986b5db..ea46c14 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -339,6 +339,17 @@ int8_t embedDBInitData(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief	Checks if a page with the given logical id belongs at a physical page. This is never the case for an erased page with all bits set.
+ * @param	logicalPageId	Logical id read from the page
+ * @param	physicalPageId	Physical page that was read
+ * @param	numPages	Number of physical pages in the file
+ * @return	Returns true if the page may hold data
+ */
+static bool isStoredAt(id_t logicalPageId, uint32_t physicalPageId, uint32_t numPages) {
+    return logicalPageId != (id_t)-1 && logicalPageId % numPages == physicalPageId;
+}
+
 /**
  * @brief	Logical page number of the newest page that can be stored at a location of a file
  * @param	physicalPageId		Location in the file
@@ -368,7 +379,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     id_t physicalPageIDOfSmallestData = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == count;
+        validData = isStoredAt(logicalPageId, count, state->numDataPages);
         numRecords = EMBEDDB_GET_COUNT(buffer);
         if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
             hasData = true;
@@ -392,7 +403,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     while (moreToRead && count < state->numDataPages) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == count;
+        validData = isStoredAt(logicalPageId, count, state->numDataPages);
         if (validData && logicalPageId == maxLogicalPageId + 1) {
             maxLogicalPageId = logicalPageId;
             physicalPageId++;
@@ -483,7 +494,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     count_t numRecords = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == count;
+        validData = isStoredAt(logicalPageId, count, state->numDataPages);
         numRecords = EMBEDDB_GET_COUNT(buffer);
         if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
             /* Setup for next loop so it does not have to worry about setting the initial values */
@@ -504,7 +515,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     if (hasPermanentData) {
         while (moreToRead && count < state->numDataPages) {
             memcpy(&logicalPageId, buffer, sizeof(id_t));
-            validData = logicalPageId % state->numDataPages == count;
+            validData = isStoredAt(logicalPageId, count, state->numDataPages);
             if (validData && logicalPageId == maxLogicalPageId + 1) {
                 maxLogicalPageId = logicalPageId;
                 physicalPageId++;
@@ -724,7 +735,7 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     uint32_t i = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-        validData = logicalIndexPageId % state->numIndexPages == count;
+        validData = isStoredAt(logicalIndexPageId, count, state->numIndexPages);
         numBitmaps = EMBEDDB_GET_COUNT(buffer);
         if (validData && numBitmaps > 0 && numBitmaps <= state->maxIdxRecordsPerPage) {
             hasData = true;
@@ -829,7 +840,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
     id_t physicalPageIDOfSmallestData = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == count;
+        validData = isStoredAt(logicalVariablePageId, count, state->numVarPages);
         if (validData) {
             uint64_t largestVarRecordId = 0;
             /* Fetch the largest key value for which we have data on this page */
@@ -871,7 +882,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
     while (moreToRead && count < state->numVarPages) {
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == count;
+        validData = isStoredAt(logicalVariablePageId, count, state->numVarPages);
         if (validData && logicalVariablePageId == maxLogicalVariablePageId + 1) {
             maxLogicalVariablePageId = logicalVariablePageId;
             physicalVariablePageId++;
-- 
2.43.0


From 48b57469626bc644daaab7cd70731813b8d752a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 21/76] fix: reset the statistics when a database with variable
 data is initialized

---
 lib/Distribution/embedDB.c | 5 ++++-
 src/embedDB/embedDB.c      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 41ca798..aec9482 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -709,12 +709,15 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         } else {
             varDataInitResult = embedDBInitVarData(state);
         }
-        return varDataInitResult;
     } else {
         state->varFile = NULL;
         state->numVarPages = 0;
     }
 
+    if (varDataInitResult != 0) {
+        return varDataInitResult;
+    }
+
     embedDBResetStats(state);
     return 0;
 }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index ea46c14..90a1f36 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -285,12 +285,15 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         } else {
             varDataInitResult = embedDBInitVarData(state);
         }
-        return varDataInitResult;
     } else {
         state->varFile = NULL;
         state->numVarPages = 0;
     }
 
+    if (varDataInitResult != 0) {
+        return varDataInitResult;
+    }
+
     embedDBResetStats(state);
     return 0;
 }
-- 
2.43.0


From c39eee08f3a8e76d4e1cbc634097d236c8cea5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 22/76] fix: reject configurations without the buffers,
 variable data pages or page size they need

---
 lib/Distribution/embedDB.c | 28 ++++++++++++++++++++++++++++
 src/embedDB/embedDB.c      | 28 ++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index aec9482..d712e11 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -603,8 +603,29 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    if (state->bufferSizeInBlocks < 2) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: embedDB requires at least 2 page buffers.\n");
+#endif
+        return -1;
+    }
+
     state->recordSize = state->keySize + state->dataSize;
     if (EMBEDDB_USING_VDATA(state->parameters)) {
+        if (state->varFile == NULL) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: No variable data file provided!\n");
+#endif
+            return -1;
+        }
+
+        if (state->numVarPages < state->eraseSizeInPages * 2) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Minimum variable data space is two erase blocks\n");
+#endif
+            return -1;
+        }
+
         if (state->numVarPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
             printf("ERROR: The number of allocated variable data pages must be divisible by the erase size in pages.\n");
@@ -642,6 +663,13 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     state->bufferedIndexPageId = -1;
     state->bufferedVarPage = -1;
 
+    if (state->pageSize < state->headerSize + state->recordSize) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The page size is too small to store a record.\n");
+#endif
+        return -1;
+    }
+
     /* Calculate number of records per page */
     state->maxRecordsPerPage = (state->pageSize - state->headerSize) / state->recordSize;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 90a1f36..e7d9ac4 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -179,8 +179,29 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    if (state->bufferSizeInBlocks < 2) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: embedDB requires at least 2 page buffers.\n");
+#endif
+        return -1;
+    }
+
     state->recordSize = state->keySize + state->dataSize;
     if (EMBEDDB_USING_VDATA(state->parameters)) {
+        if (state->varFile == NULL) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: No variable data file provided!\n");
+#endif
+            return -1;
+        }
+
+        if (state->numVarPages < state->eraseSizeInPages * 2) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Minimum variable data space is two erase blocks\n");
+#endif
+            return -1;
+        }
+
         if (state->numVarPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
             printf("ERROR: The number of allocated variable data pages must be divisible by the erase size in pages.\n");
@@ -218,6 +239,13 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     state->bufferedIndexPageId = -1;
     state->bufferedVarPage = -1;
 
+    if (state->pageSize < state->headerSize + state->recordSize) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The page size is too small to store a record.\n");
+#endif
+        return -1;
+    }
+
     /* Calculate number of records per page */
     state->maxRecordsPerPage = (state->pageSize - state->headerSize) / state->recordSize;
 
-- 
2.43.0


From 32536ded5c8a0bd68c0ee1478a8e11c437ca8fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 23/76] fix: initialize the minimum key and data of a page
 header only if the header has them

---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index d712e11..41fe5a7 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -524,7 +524,7 @@ void initBufferPage(embedDBState *state, int pageNum) {
         ((int8_t *)buf)[i] = 0;
     }
 
-    if (pageNum != EMBEDDB_VAR_WRITE_BUFFER(state->parameters)) {
+    if (EMBEDDB_USING_MAX_MIN(state->parameters) && pageNum != EMBEDDB_VAR_WRITE_BUFFER(state->parameters)) {
         /* Initialize header key min. Max and sum is already set to zero by the
          * for-loop above */
         void *min = EMBEDDB_GET_MIN_KEY(buf);
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index e7d9ac4..9300cce 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -100,7 +100,7 @@ void initBufferPage(embedDBState *state, int pageNum) {
         ((int8_t *)buf)[i] = 0;
     }
 
-    if (pageNum != EMBEDDB_VAR_WRITE_BUFFER(state->parameters)) {
+    if (EMBEDDB_USING_MAX_MIN(state->parameters) && pageNum != EMBEDDB_VAR_WRITE_BUFFER(state->parameters)) {
         /* Initialize header key min. Max and sum is already set to zero by the
          * for-loop above */
         void *min = EMBEDDB_GET_MIN_KEY(buf);
-- 
2.43.0


From 3e6f78f68a8887928c28571f03805024ee7deaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 24/76] fix: compare and interpolate spline segments without
 overflow

---
 lib/Distribution/embedDB.c | 74 ++++++++++++++++++++++++++++++++++----
 src/spline/spline.c        | 74 ++++++++++++++++++++++++++++++++++----
 2 files changed, 134 insertions(+), 14 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 41fe5a7..308684e 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -97,18 +97,78 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->numAddCalls = 0;
 }
 
+/**
+ * @brief    Compares the slopes of two lines through the origin without overflow.
+ * @param    x1  Key difference of the first line
+ * @param    y1  Page difference of the first line, which may be negative
+ * @param    x2  Key difference of the second line
+ * @param    y2  Page difference of the second line, which may be negative
+ * @return   Returns 1 if the first line is steeper, -1 if the second line is steeper, and 0 otherwise
+ */
+static int8_t splineCompareSlopes(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
+    if ((y1 < 0) != (y2 < 0))
+        return y1 < 0 ? -1 : 1;
+
+    /* Compare the products y1 * x2 and y2 * x1, which take up to 96 bits, in two parts */
+    uint64_t absY1 = y1 < 0 ? -y1 : y1, absY2 = y2 < 0 ? -y2 : y2;
+    uint64_t low1 = (x2 & UINT32_MAX) * absY1, low2 = (x1 & UINT32_MAX) * absY2;
+    uint64_t high1 = (x2 >> 32) * absY1 + (low1 >> 32), high2 = (x1 >> 32) * absY2 + (low2 >> 32);
+    low1 &= UINT32_MAX;
+    low2 &= UINT32_MAX;
+
+    if (high1 == high2 && low1 == low2)
+        return 0;
+    int8_t larger = high1 > high2 || (high1 == high2 && low1 > low2) ? 1 : -1;
+    return y1 < 0 ? -larger : larger;
+}
+
 /**
  * @brief    Check if first line is to the left (counter-clockwise) of the second.
  */
 static inline int8_t splineIsLeft(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 > y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) > 0;
 }
 
 /**
  * @brief    Check if first line is to the right (clockwise) of the second.
  */
 static inline int8_t splineIsRight(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 < y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) < 0;
+}
+
+/**
+ * @brief    Interpolates between two points: calculates keyDiff * pageDiff / segmentKeyDiff without overflow.
+ * @param    keyDiff         Difference of the key to the first point
+ * @param    segmentKeyDiff  Difference of the key of the second point to the first point
+ * @param    pageDiff        Difference of the page of the second point to the first point
+ */
+static uint32_t splineInterpolate(uint64_t keyDiff, uint64_t segmentKeyDiff, uint32_t pageDiff) {
+    if (keyDiff >= segmentKeyDiff)
+        return pageDiff;
+    if (keyDiff <= UINT32_MAX)
+        return keyDiff * pageDiff / segmentKeyDiff;
+
+    /* Multiply and divide bit by bit */
+    uint32_t quotient = 0;
+    uint64_t remainder = 0;
+    for (int8_t bit = 31; bit >= 0; bit--) {
+        quotient <<= 1;
+        if (remainder >= segmentKeyDiff - remainder) {
+            remainder -= segmentKeyDiff - remainder;
+            quotient++;
+        } else {
+            remainder += remainder;
+        }
+        if ((pageDiff >> bit) & 1) {
+            if (remainder >= segmentKeyDiff - keyDiff) {
+                remainder -= segmentKeyDiff - keyDiff;
+                quotient++;
+            } else {
+                remainder += keyDiff;
+            }
+        }
+    }
+    return quotient;
 }
 
 /**
@@ -168,7 +228,7 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
     memcpy(&lastPage, (int8_t *)lastPointLocation + spl->keySize, sizeof(uint32_t));
 
     uint64_t xdiff, upperXDiff, lowerXDiff = 0;
-    uint32_t ydiff, upperYDiff = 0;
+    uint32_t ydiff, upperYDiff = 0, lowerPoint = 0;
     int64_t lowerYDiff = 0; /* This may be negative */
 
     xdiff = keyVal - lastPointKey;
@@ -177,8 +237,8 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
     memcpy(&upperYDiff, (int8_t *)spl->upper + spl->keySize, sizeof(uint32_t));
     upperYDiff -= lastPage;
     lowerXDiff = lowerKey - lastPointKey;
-    memcpy(&lowerYDiff, (int8_t *)spl->lower + spl->keySize, sizeof(uint32_t));
-    lowerYDiff -= lastPage;
+    memcpy(&lowerPoint, (int8_t *)spl->lower + spl->keySize, sizeof(uint32_t));
+    lowerYDiff = (int64_t)lowerPoint - lastPage;
 
     if (spl->count >= spl->size) {
         int8_t eraseResult = splineErase(spl, spl->eraseSize);
@@ -218,7 +278,7 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
         }
 
         /* Lower limit */
-        if (splineIsRight(lowerXDiff, lowerYDiff, xdiff, (page < spl->maxError ? 0 : page - spl->maxError) - lastPage) == 1) {
+        if (splineIsRight(lowerXDiff, lowerYDiff, xdiff, (int64_t)(page < spl->maxError ? 0 : page - spl->maxError) - lastPage) == 1) {
             memcpy(spl->lower, key, spl->keySize);
             uint32_t lowerPage = page < spl->maxError ? 0 : page - spl->maxError;
             memcpy((int8_t *)spl->lower + spl->keySize, &lowerPage, sizeof(uint32_t));
@@ -399,7 +459,7 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
 
     // Estimate location as page number
     // Keydiff * slope + y
-    id_t locationEstimate = (id_t)((keyVal - downKeyVal) * (upPage - downPage) / (long double)(upKeyVal - downKeyVal)) + downPage;
+    id_t locationEstimate = splineInterpolate(keyVal - downKeyVal, upKeyVal - downKeyVal, upPage - downPage) + downPage;
     memcpy(loc, &locationEstimate, sizeof(id_t));
 
     // Set error bounds based on maxError from spline construction
diff --git a/src/spline/spline.c b/src/spline/spline.c
index 131536b..901d78d 100644
--- a/src/spline/spline.c
+++ b/src/spline/spline.c
@@ -68,18 +68,78 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->numAddCalls = 0;
 }
 
+/**
+ * @brief    Compares the slopes of two lines through the origin without overflow.
+ * @param    x1  Key difference of the first line
+ * @param    y1  Page difference of the first line, which may be negative
+ * @param    x2  Key difference of the second line
+ * @param    y2  Page difference of the second line, which may be negative
+ * @return   Returns 1 if the first line is steeper, -1 if the second line is steeper, and 0 otherwise
+ */
+static int8_t splineCompareSlopes(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
+    if ((y1 < 0) != (y2 < 0))
+        return y1 < 0 ? -1 : 1;
+
+    /* Compare the products y1 * x2 and y2 * x1, which take up to 96 bits, in two parts */
+    uint64_t absY1 = y1 < 0 ? -y1 : y1, absY2 = y2 < 0 ? -y2 : y2;
+    uint64_t low1 = (x2 & UINT32_MAX) * absY1, low2 = (x1 & UINT32_MAX) * absY2;
+    uint64_t high1 = (x2 >> 32) * absY1 + (low1 >> 32), high2 = (x1 >> 32) * absY2 + (low2 >> 32);
+    low1 &= UINT32_MAX;
+    low2 &= UINT32_MAX;
+
+    if (high1 == high2 && low1 == low2)
+        return 0;
+    int8_t larger = high1 > high2 || (high1 == high2 && low1 > low2) ? 1 : -1;
+    return y1 < 0 ? -larger : larger;
+}
+
 /**
  * @brief    Check if first line is to the left (counter-clockwise) of the second.
  */
 static inline int8_t splineIsLeft(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 > y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) > 0;
 }
 
 /**
  * @brief    Check if first line is to the right (clockwise) of the second.
  */
 static inline int8_t splineIsRight(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 < y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) < 0;
+}
+
+/**
+ * @brief    Interpolates between two points: calculates keyDiff * pageDiff / segmentKeyDiff without overflow.
+ * @param    keyDiff         Difference of the key to the first point
+ * @param    segmentKeyDiff  Difference of the key of the second point to the first point
+ * @param    pageDiff        Difference of the page of the second point to the first point
+ */
+static uint32_t splineInterpolate(uint64_t keyDiff, uint64_t segmentKeyDiff, uint32_t pageDiff) {
+    if (keyDiff >= segmentKeyDiff)
+        return pageDiff;
+    if (keyDiff <= UINT32_MAX)
+        return keyDiff * pageDiff / segmentKeyDiff;
+
+    /* Multiply and divide bit by bit */
+    uint32_t quotient = 0;
+    uint64_t remainder = 0;
+    for (int8_t bit = 31; bit >= 0; bit--) {
+        quotient <<= 1;
+        if (remainder >= segmentKeyDiff - remainder) {
+            remainder -= segmentKeyDiff - remainder;
+            quotient++;
+        } else {
+            remainder += remainder;
+        }
+        if ((pageDiff >> bit) & 1) {
+            if (remainder >= segmentKeyDiff - keyDiff) {
+                remainder -= segmentKeyDiff - keyDiff;
+                quotient++;
+            } else {
+                remainder += keyDiff;
+            }
+        }
+    }
+    return quotient;
 }
 
 /**
@@ -139,7 +199,7 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
     memcpy(&lastPage, (int8_t *)lastPointLocation + spl->keySize, sizeof(uint32_t));
 
     uint64_t xdiff, upperXDiff, lowerXDiff = 0;
-    uint32_t ydiff, upperYDiff = 0;
+    uint32_t ydiff, upperYDiff = 0, lowerPoint = 0;
     int64_t lowerYDiff = 0; /* This may be negative */
 
     xdiff = keyVal - lastPointKey;
@@ -148,8 +208,8 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
     memcpy(&upperYDiff, (int8_t *)spl->upper + spl->keySize, sizeof(uint32_t));
     upperYDiff -= lastPage;
     lowerXDiff = lowerKey - lastPointKey;
-    memcpy(&lowerYDiff, (int8_t *)spl->lower + spl->keySize, sizeof(uint32_t));
-    lowerYDiff -= lastPage;
+    memcpy(&lowerPoint, (int8_t *)spl->lower + spl->keySize, sizeof(uint32_t));
+    lowerYDiff = (int64_t)lowerPoint - lastPage;
 
     if (spl->count >= spl->size) {
         int8_t eraseResult = splineErase(spl, spl->eraseSize);
@@ -189,7 +249,7 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
         }
 
         /* Lower limit */
-        if (splineIsRight(lowerXDiff, lowerYDiff, xdiff, (page < spl->maxError ? 0 : page - spl->maxError) - lastPage) == 1) {
+        if (splineIsRight(lowerXDiff, lowerYDiff, xdiff, (int64_t)(page < spl->maxError ? 0 : page - spl->maxError) - lastPage) == 1) {
             memcpy(spl->lower, key, spl->keySize);
             uint32_t lowerPage = page < spl->maxError ? 0 : page - spl->maxError;
             memcpy((int8_t *)spl->lower + spl->keySize, &lowerPage, sizeof(uint32_t));
@@ -370,7 +430,7 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
 
     // Estimate location as page number
     // Keydiff * slope + y
-    id_t locationEstimate = (id_t)((keyVal - downKeyVal) * (upPage - downPage) / (long double)(upKeyVal - downKeyVal)) + downPage;
+    id_t locationEstimate = splineInterpolate(keyVal - downKeyVal, upKeyVal - downKeyVal, upPage - downPage) + downPage;
     memcpy(loc, &locationEstimate, sizeof(id_t));
 
     // Set error bounds based on maxError from spline construction
-- 
2.43.0


From a6672bd5cf746c36cd45d58410d9f2e3af9b54d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 25/76] fix: start over with an empty spline after all its
 points were erased

---
 lib/Distribution/embedDB.c | 4 +++-
 src/spline/spline.c        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 308684e..f8caf5a 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -313,8 +313,10 @@ int splineErase(spline *spl, uint32_t numPoints) {
 
     spl->count -= numPoints;
     spl->pointsStartIndex = (spl->pointsStartIndex + numPoints) % spl->size;
-    if (spl->count == 0)
+    if (spl->count == 0) {
         spl->numAddCalls = 0;
+        spl->tempLastPoint = 0;
+    }
     return 0;
 }
 
diff --git a/src/spline/spline.c b/src/spline/spline.c
index 901d78d..520133c 100644
--- a/src/spline/spline.c
+++ b/src/spline/spline.c
@@ -284,8 +284,10 @@ int splineErase(spline *spl, uint32_t numPoints) {
 
     spl->count -= numPoints;
     spl->pointsStartIndex = (spl->pointsStartIndex + numPoints) % spl->size;
-    if (spl->count == 0)
+    if (spl->count == 0) {
         spl->numAddCalls = 0;
+        spl->tempLastPoint = 0;
+    }
     return 0;
 }
 
-- 
2.43.0


From d5febbcadedd35cc4d61b9dcb1301d51cc9d07ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 26/76] fix: do not read past the last spline point when
 cleaning the spline

---
 lib/Distribution/embedDB.c | 7 +++----
 src/embedDB/embedDB.c      | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index f8caf5a..8389df8 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2845,7 +2845,8 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
     uint32_t numPointsErased = 0;
     void *nextPoint;
     uint32_t currentPageNumber = 0;
-    for (size_t i = 0; i < state->spl->count; i++) {
+    /* Keep at least two points */
+    for (size_t i = 0; i + 2 < state->spl->count; i++) {
         nextPoint = splinePointLocation(state->spl, i + 1);
         memcpy(&currentPageNumber, (int8_t *)nextPoint + state->keySize, sizeof(uint32_t));
         if (currentPageNumber < minPageNumber) {
@@ -2854,9 +2855,7 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
             break;
         }
     }
-    if (state->spl->count - numPointsErased < 2)
-        numPointsErased -= 2 - (state->spl->count - numPointsErased);
-    if (numPointsErased <= 0)
+    if (numPointsErased == 0)
         return 0;
     splineErase(state->spl, numPointsErased);
     return numPointsErased;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 9300cce..6f82deb 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2358,7 +2358,8 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
     uint32_t numPointsErased = 0;
     void *nextPoint;
     uint32_t currentPageNumber = 0;
-    for (size_t i = 0; i < state->spl->count; i++) {
+    /* Keep at least two points */
+    for (size_t i = 0; i + 2 < state->spl->count; i++) {
         nextPoint = splinePointLocation(state->spl, i + 1);
         memcpy(&currentPageNumber, (int8_t *)nextPoint + state->keySize, sizeof(uint32_t));
         if (currentPageNumber < minPageNumber) {
@@ -2367,9 +2368,7 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
             break;
         }
     }
-    if (state->spl->count - numPointsErased < 2)
-        numPointsErased -= 2 - (state->spl->count - numPointsErased);
-    if (numPointsErased <= 0)
+    if (numPointsErased == 0)
         return 0;
     splineErase(state->spl, numPointsErased);
     return numPointsErased;
-- 
2.43.0


From 70ce1e2cb6d473adbcbcaff13651217c5a9ee64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 27/76] fix: extend the sign of 5 to 7 byte columns in sum and
 average

---
 lib/Distribution/embedDB.c            | 4 ++--
 src/query-interface/advancedQueries.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 8389df8..98e3890 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4196,7 +4196,7 @@ void sumAdd(embedDBAggregateFunc *aggFunc, embedDBSchema *inputSchema, const voi
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & (int64_t)((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t *)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
@@ -4399,7 +4399,7 @@ void avgAdd(struct embedDBAggregateFunc *aggFunc, embedDBSchema *inputSchema, co
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & (int64_t)((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t *)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 2a513a9..858baa7 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -861,7 +861,7 @@ void sumAdd(embedDBAggregateFunc* aggFunc, embedDBSchema* inputSchema, const voi
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & (int64_t)((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
@@ -1064,7 +1064,7 @@ void avgAdd(struct embedDBAggregateFunc* aggFunc, embedDBSchema* inputSchema, co
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & (int64_t)((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
-- 
2.43.0


From 7333c9ca623aa80ecff4f5891a93049482680b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 28/76] fix: do not join leftover records after an input of a
 key join has ended

---
 lib/Distribution/embedDB.c            | 10 ++++++++++
 src/query-interface/advancedQueries.c | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 98e3890..690b9a8 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3989,6 +3989,7 @@ embedDBOperator *createAggregateOperator(embedDBOperator *input, int8_t (*groupf
 struct keyJoinInfo {
     embedDBOperator *input2;
     int8_t firstCall;
+    int8_t isFinished;  // Has either input run out of records? Its record buffer does not hold a record then
 };
 
 void initKeyJoin(embedDBOperator *op) {
@@ -4042,6 +4043,7 @@ void initKeyJoin(embedDBOperator *op) {
     }
 
     state->firstCall = 1;
+    state->isFinished = 0;
 }
 
 int8_t nextKeyJoin(embedDBOperator *op) {
@@ -4057,11 +4059,16 @@ int8_t nextKeyJoin(embedDBOperator *op) {
 
     int8_t colSize = abs(schema1->columnSizes[0]);
 
+    if (state->isFinished) {
+        return 0;
+    }
+
     if (state->firstCall) {
         state->firstCall = 0;
 
         if (!input1->next(input1) || !input2->next(input2)) {
             // If this case happens, you goofed, but I'll handle it anyway
+            state->isFinished = 1;
             return 0;
         }
         goto check;
@@ -4073,18 +4080,21 @@ int8_t nextKeyJoin(embedDBOperator *op) {
         if (comp == 0) {
             // Move both forward because if they match at this point, they've already been matched
             if (!input1->next(input1) || !input2->next(input2)) {
+                state->isFinished = 1;
                 return 0;
             }
         } else if (comp < 0) {
             // Move record 1 forward
             if (!input1->next(input1)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->isFinished = 1;
                 return 0;
             }
         } else {
             // Move record 2 forward
             if (!input2->next(input2)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->isFinished = 1;
                 return 0;
             }
         }
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 858baa7..9cd397e 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -654,6 +654,7 @@ embedDBOperator* createAggregateOperator(embedDBOperator* input, int8_t (*groupf
 struct keyJoinInfo {
     embedDBOperator* input2;
     int8_t firstCall;
+    int8_t isFinished;  // Has either input run out of records? Its record buffer does not hold a record then
 };
 
 void initKeyJoin(embedDBOperator* op) {
@@ -707,6 +708,7 @@ void initKeyJoin(embedDBOperator* op) {
     }
 
     state->firstCall = 1;
+    state->isFinished = 0;
 }
 
 int8_t nextKeyJoin(embedDBOperator* op) {
@@ -722,11 +724,16 @@ int8_t nextKeyJoin(embedDBOperator* op) {
 
     int8_t colSize = abs(schema1->columnSizes[0]);
 
+    if (state->isFinished) {
+        return 0;
+    }
+
     if (state->firstCall) {
         state->firstCall = 0;
 
         if (!input1->next(input1) || !input2->next(input2)) {
             // If this case happens, you goofed, but I'll handle it anyway
+            state->isFinished = 1;
             return 0;
         }
         goto check;
@@ -738,18 +745,21 @@ int8_t nextKeyJoin(embedDBOperator* op) {
         if (comp == 0) {
             // Move both forward because if they match at this point, they've already been matched
             if (!input1->next(input1) || !input2->next(input2)) {
+                state->isFinished = 1;
                 return 0;
             }
         } else if (comp < 0) {
             // Move record 1 forward
             if (!input1->next(input1)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->isFinished = 1;
                 return 0;
             }
         } else {
             // Move record 2 forward
             if (!input2->next(input2)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->isFinished = 1;
                 return 0;
             }
         }
-- 
2.43.0


From 2bcd4b026dc8f49e7bbc38c33d1f70876c44992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 29/76] fix: keep the input of a closed aggregate so that it is
 freed with the chain

---
 lib/Distribution/embedDB.c            | 1 -
 src/query-interface/advancedQueries.c | 1 -
 2 files changed, 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 690b9a8..9dd2d0b 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3937,7 +3937,6 @@ int8_t nextAggregate(embedDBOperator *op) {
 
 void closeAggregate(embedDBOperator *op) {
     op->input->close(op->input);
-    op->input = NULL;
     embedDBFreeSchema(&op->schema);
     free(((struct aggregateInfo *)op->state)->lastRecordBuffer);
     free(op->state);
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 9cd397e..de12536 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -602,7 +602,6 @@ int8_t nextAggregate(embedDBOperator* op) {
 
 void closeAggregate(embedDBOperator* op) {
     op->input->close(op->input);
-    op->input = NULL;
     embedDBFreeSchema(&op->schema);
     free(((struct aggregateInfo*)op->state)->lastRecordBuffer);
     free(op->state);
-- 
2.43.0


From f36f19245878c357d1fd25a30ef00911fad70ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 30/76] fix: reject negative column sizes and free the schema
 of a rejected list of columns

---
 lib/Distribution/embedDB.c   | 4 +++-
 src/query-interface/schema.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 9dd2d0b..be54c96 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3237,12 +3237,13 @@ embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *co
     uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
         int8_t sign = colSignedness[i];
-        uint8_t colSize = colSizes[i];
+        int8_t colSize = colSizes[i];
         totalSize += colSize;
         if (colSize <= 0) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Column size must be greater than zero\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
         if (sign == embedDB_COLUMN_SIGNED) {
@@ -3253,6 +3254,7 @@ embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *co
 #ifdef PRINT_ERRORS
             printf("ERROR: Must only use embedDB_COLUMN_SIGNED or embedDB_COLUMN_UNSIGNED to describe column signedness\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
     }
diff --git a/src/query-interface/schema.c b/src/query-interface/schema.c
index 5790949..5ec5c33 100644
--- a/src/query-interface/schema.c
+++ b/src/query-interface/schema.c
@@ -57,12 +57,13 @@ embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* co
     uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
         int8_t sign = colSignedness[i];
-        uint8_t colSize = colSizes[i];
+        int8_t colSize = colSizes[i];
         totalSize += colSize;
         if (colSize <= 0) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Column size must be greater than zero\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
         if (sign == embedDB_COLUMN_SIGNED) {
@@ -73,6 +74,7 @@ embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* co
 #ifdef PRINT_ERRORS
             printf("ERROR: Must only use embedDB_COLUMN_SIGNED or embedDB_COLUMN_UNSIGNED to describe column signedness\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
     }
-- 
2.43.0


From 79eb3fa3119562b68d7cbc003d1256c74c828c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:46 +0000
Subject: [PATCH 31/76] fix: desktop file offsets beyond 4 GiB and failed seeks

---
 .../desktopFileInterface.c                      | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/Desktop-File-Interface/desktopFileInterface.c b/lib/Desktop-File-Interface/desktopFileInterface.c
index 47c0812..62cca91 100644
--- a/lib/Desktop-File-Interface/desktopFileInterface.c
+++ b/lib/Desktop-File-Interface/desktopFileInterface.c
@@ -22,15 +22,22 @@ void tearDownFile(void *file) {
     free(file);
 }
 
+static int seekToPage(FILE_INFO *fileInfo, uint32_t pageNum, uint32_t pageSize) {
+    /* The offset of a page may not fit in 32 bits */
+    return fseek(fileInfo->file, (long)((uint64_t)pageNum * pageSize), SEEK_SET);
+}
+
 int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fseek(fileInfo->file, pageSize * pageNum, SEEK_SET);
+    if (seekToPage(fileInfo, pageNum, pageSize) != 0)
+        return 0;
     return fread(buffer, pageSize, 1, fileInfo->file);
 }
 
 int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fseek(fileInfo->file, pageNum * pageSize, SEEK_SET);
+    if (seekToPage(fileInfo, pageNum, pageSize) != 0)
+        return 0;
     return fwrite(buffer, pageSize, 1, fileInfo->file);
 }
 
@@ -41,17 +48,17 @@ int8_t FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void
 int8_t MOCK_FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void *file) {
     /* Seek to position in file */
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    int seekResult = fseek(fileInfo->file, startPage * pageSize, SEEK_SET);
+    int seekResult = seekToPage(fileInfo, startPage, pageSize);
 
     if (seekResult != 0) {
 #ifdef PRINT_ERRORS
         printf("Error seeking in file.\n");
 #endif
-        return seekResult;
+        return 0;
     }
 
     /* Setup data to insert */
-    size_t memorySize = (endPage - startPage) * pageSize;
+    size_t memorySize = (size_t)(endPage - startPage) * pageSize;
     char *buffer = malloc(memorySize);
     memset(buffer, 1, memorySize);
 
-- 
2.43.0


From d3d1afd1cd54874548d4138a8b444a3d04db95d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 32/76] fix: report failure of closing a desktop file

---
 lib/Desktop-File-Interface/desktopFileInterface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Desktop-File-Interface/desktopFileInterface.c b/lib/Desktop-File-Interface/desktopFileInterface.c
index 62cca91..f34e8a9 100644
--- a/lib/Desktop-File-Interface/desktopFileInterface.c
+++ b/lib/Desktop-File-Interface/desktopFileInterface.c
@@ -70,9 +70,9 @@ int8_t MOCK_FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize,
 
 int8_t FILE_CLOSE(void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fclose(fileInfo->file);
+    int closeResult = fclose(fileInfo->file);
     fileInfo->file = NULL;
-    return 1;
+    return closeResult == 0;
 }
 
 int8_t FILE_FLUSH(void *file) {
-- 
2.43.0


From cf1ab9de27c3ce1285b2cdbed04968949f0f8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 33/76] fix: SD file interface ignores failed seeks and writes

---
 lib/SD-File-Interface/SDFileInterface.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/SD-File-Interface/SDFileInterface.c b/lib/SD-File-Interface/SDFileInterface.c
index 58da460..0948514 100644
--- a/lib/SD-File-Interface/SDFileInterface.c
+++ b/lib/SD-File-Interface/SDFileInterface.c
@@ -59,18 +59,24 @@ void tearDownSDFile(void *file) {
 
 int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     SD_FILE_INFO *fileInfo = (SD_FILE_INFO *)file;
-    sd_fseek(fileInfo->sdFile, pageSize * pageNum, SEEK_SET);
+    uint64_t offset = (uint64_t)pageNum * pageSize;
+    /* File offsets on the SD card have 32 bits */
+    if (offset > UINT32_MAX || sd_fseek(fileInfo->sdFile, offset, SEEK_SET) != 0)
+        return 0;
     return sd_fread(buffer, pageSize, 1, fileInfo->sdFile);
 }
 
 int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     SD_FILE_INFO *fileInfo = (SD_FILE_INFO *)file;
+    /* File offsets on the SD card have 32 bits */
+    if ((uint64_t)pageNum * pageSize + pageSize > UINT32_MAX)
+        return 0;
     size_t fileSize = sd_length(fileInfo->sdFile);
     size_t requiredSize = pageNum * pageSize;
     if (fileSize < pageNum * pageSize) {
         int8_t seekSuccess = sd_fseek(fileInfo->sdFile, fileSize, SEEK_SET);
         if (seekSuccess == -1) {
-            return -1;
+            return 0;
         }
         size_t currentSize = fileSize;
         uint32_t max = UINT32_MAX;
@@ -78,18 +84,15 @@ int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file)
         while (currentSize < requiredSize) {
             writeSuccess = sd_fwrite(&max, sizeof(uint32_t), 1, fileInfo->sdFile);
             if (writeSuccess == 0)
-                return -1;
+                return 0;
             currentSize += 4;
         }
     }
     int8_t seekSuccess = sd_fseek(fileInfo->sdFile, pageNum * pageSize, SEEK_SET);
     if (seekSuccess == -1) {
-        return -1;
-    }
-    int8_t writeSuccess = sd_fwrite(buffer, pageSize, 1, fileInfo->sdFile) == pageSize;
-    if (seekSuccess == -1)
         return 0;
-    return 1;
+    }
+    return sd_fwrite(buffer, pageSize, 1, fileInfo->sdFile) == pageSize;
 }
 
 int8_t FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void *file) {
-- 
2.43.0


From 42344801d8dafc8ec69eb77fb059290e0c2a293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:36 +0000
Subject: [PATCH 34/76] fix: SD reads of 32 KiB and more

---
 lib/SD-Wrapper/sdcard_c_iface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SD-Wrapper/sdcard_c_iface.cpp b/lib/SD-Wrapper/sdcard_c_iface.cpp
index 2f72f1e..7ba8fcf 100644
--- a/lib/SD-Wrapper/sdcard_c_iface.cpp
+++ b/lib/SD-Wrapper/sdcard_c_iface.cpp
@@ -104,7 +104,7 @@ SD_FILE *sd_fopen(const char *filename, const char *mode) {
 
 size_t sd_fread(void *ptr, size_t size, size_t nmemb, SD_FILE *stream) {
     /* read is the size of bytes * num of size-bytes */
-    int16_t num_bytes = stream->f.read((char *)ptr, size * nmemb);
+    int num_bytes = stream->f.read((char *)ptr, size * nmemb);
 
     if (num_bytes < 0)
         return 0;
-- 
2.43.0


From ab45565d14af277db1736d534f2f0f197a65623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 35/76] fix: SD gap filling beyond the start of the page

---
 lib/SD-File-Interface/SDFileInterface.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/SD-File-Interface/SDFileInterface.c b/lib/SD-File-Interface/SDFileInterface.c
index 0948514..20c821c 100644
--- a/lib/SD-File-Interface/SDFileInterface.c
+++ b/lib/SD-File-Interface/SDFileInterface.c
@@ -82,10 +82,11 @@ int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file)
         uint32_t max = UINT32_MAX;
         uint32_t writeSuccess = 0;
         while (currentSize < requiredSize) {
-            writeSuccess = sd_fwrite(&max, sizeof(uint32_t), 1, fileInfo->sdFile);
+            size_t padding = requiredSize - currentSize < sizeof(uint32_t) ? requiredSize - currentSize : sizeof(uint32_t);
+            writeSuccess = sd_fwrite(&max, padding, 1, fileInfo->sdFile);
             if (writeSuccess == 0)
                 return 0;
-            currentSize += 4;
+            currentSize += padding;
         }
     }
     int8_t seekSuccess = sd_fseek(fileInfo->sdFile, pageNum * pageSize, SEEK_SET);
-- 
2.43.0


From 79e971249b8d1c317fc816f404d127350299c797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 36/76] fix: report failed flushes and closes of SD files

---
 lib/SD-File-Interface/SDFileInterface.c | 4 ++--
 lib/SD-Wrapper/sdcard_c_iface.cpp       | 8 ++++----
 lib/SD-Wrapper/sdcard_c_iface.h         | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/SD-File-Interface/SDFileInterface.c b/lib/SD-File-Interface/SDFileInterface.c
index 20c821c..027117b 100644
--- a/lib/SD-File-Interface/SDFileInterface.c
+++ b/lib/SD-File-Interface/SDFileInterface.c
@@ -102,9 +102,9 @@ int8_t FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void
 
 int8_t FILE_CLOSE(void *file) {
     SD_FILE_INFO *fileInfo = (SD_FILE_INFO *)file;
-    sd_fclose(fileInfo->sdFile);
+    int closeResult = sd_fclose(fileInfo->sdFile);
     fileInfo->sdFile = NULL;
-    return 1;
+    return closeResult == 0;
 }
 
 int8_t FILE_FLUSH(void *file) {
diff --git a/lib/SD-Wrapper/sdcard_c_iface.cpp b/lib/SD-Wrapper/sdcard_c_iface.cpp
index 7ba8fcf..bdb9b50 100644
--- a/lib/SD-Wrapper/sdcard_c_iface.cpp
+++ b/lib/SD-Wrapper/sdcard_c_iface.cpp
@@ -62,17 +62,17 @@ void init_sdcard(void *sd) {
 }
 
 int sd_fclose(SD_FILE *stream) {
+    int result = 0;
     if (stream) {
-        stream->f.close();
+        result = stream->f.close() ? 0 : -1;
     }
 
     delete stream;
-    return 0;
+    return result;
 }
 
 int sd_fflush(SD_FILE *stream) {
-    stream->f.flush();
-    return 0;
+    return stream->f.sync() ? 0 : -1;
 }
 
 SD_FILE *sd_fopen(const char *filename, const char *mode) {
diff --git a/lib/SD-Wrapper/sdcard_c_iface.h b/lib/SD-Wrapper/sdcard_c_iface.h
index 2dc785e..a116e90 100644
--- a/lib/SD-Wrapper/sdcard_c_iface.h
+++ b/lib/SD-Wrapper/sdcard_c_iface.h
@@ -65,7 +65,7 @@ typedef struct _SD_File SD_FILE;
 @param		stream
                                 A pointer to the C file struct type associated with an SD
                                 file object.
-@returns	@c 0, always.
+@returns	@c 0 for success, a non-zero integer otherwise.
 */
 int sd_fclose(
     SD_FILE *stream);
@@ -75,7 +75,7 @@ int sd_fclose(
 @param		stream
                                 A pointer to the C file struct type associated with an SD
                                 file object representing the file to flush.
-@returns	@c 0, always.
+@returns	@c 0 for success, a non-zero integer otherwise.
 */
 int sd_fflush(
     SD_FILE *stream);
-- 
2.43.0


From 5befd8944a0bc24c20c25dba8ca08e7cfbe0385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 37/76] fix: opening an SD file whose truncation failed

---
 lib/SD-Wrapper/sdcard_c_iface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/SD-Wrapper/sdcard_c_iface.cpp b/lib/SD-Wrapper/sdcard_c_iface.cpp
index bdb9b50..6db525b 100644
--- a/lib/SD-Wrapper/sdcard_c_iface.cpp
+++ b/lib/SD-Wrapper/sdcard_c_iface.cpp
@@ -85,7 +85,8 @@ SD_FILE *sd_fopen(const char *filename, const char *mode) {
         }
         if (f.isOpen() == false)
             return NULL;
-        f.truncate(0);
+        if (!f.truncate(0))
+            return NULL;
     } else if (mode[0] == 'r') {
         if (mode[1] == '+') {
             f = sdcard->open(filename, O_RDWR);
-- 
2.43.0


From de2c1d4052a99df7229cc72e045a3e4b92161134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 38/76] fix: deterministic order of standard headers in the
 amalgamation

---
 amalgamation/amalgamation.py | 1432 +++++++++++++++++-----------------
 1 file changed, 716 insertions(+), 716 deletions(-)

diff --git a/amalgamation/amalgamation.py b/amalgamation/amalgamation.py
index ef41a23..54f145d 100644
--- a/amalgamation/amalgamation.py
+++ b/amalgamation/amalgamation.py
@@ -1,716 +1,716 @@
-from collections import deque
-import glob
-import os
-import re
-import sys
-
-"""
-GLOBAL VARIABLES: DO NOT EDIT
-"""
-
-# REGEX
-REGEX_INCLUDE = r'\s*#include ((<[^>]+>)|("[^"]+"))'  # https://stackoverflow.com/questions/1420017/regular-expression-to-match-c-include-file
-REGEX_COMMENTS = r"//.*?\n|/\*.*?\*/"
-
-# standard libraries
-c_stand = {
-    "#include <assert.h>",
-    "#include <complex.h>",
-    "#include <ctype.h>",
-    "#include <errno.h>",
-    "#include <fenv.h>",
-    "#include <float.h>",
-    "#include <inttypes.h>",
-    "#include <iso646.h>",
-    "#include <limits.h>",
-    "#include <locale.h>",
-    "#include <math.h>",
-    "#include <setjmp.h>",
-    "#include <signal.h>",
-    "#include <stdalign.h>",
-    "#include <stdarg.h>",
-    "#include <stdatomic.h>",
-    "#include <stdbool.h>",
-    "#include <stddef.h>",
-    "#include <stdint.h>",
-    "#include <stdio.h>",
-    "#include <stdlib.h>",
-    "#include <stdnoreturn.h>",
-    "#include <string.h>",
-    "#include <tgmath.h>",
-    "#include <threads.h>",
-    "#include <time.h>",
-    "#include <uchar.h>",
-    "#include <wchar.h>",
-    "#include <wctype.h>",
-}
-
-aud_stand = {
-    "#include <assert.h>",
-    "#include <complex.h>",
-    "#include <ctype.h>",
-    "#include <errno.h>",
-    "#include <fenv.h>",
-    "#include <float.h>",
-    "#include <inttypes.h>",
-    "#include <iso646.h>",
-    "#include <limits.h>",
-    "#include <locale.h>",
-    "#include <math.h>",
-    "#include <setjmp.h>",
-    "#include <signal.h>",
-    "#include <stdalign.h>",
-    "#include <stdarg.h>",
-    "#include <stdatomic.h>",
-    "#include <stdbool.h>",
-    "#include <stddef.h>",
-    "#include <stdint.h>",
-    "#include <stdio.h>",
-    "#include <stdlib.h>",
-    "#include <stdnoreturn.h>",
-    "#include <string.h>",
-    "#include <tgmath.h>",
-    "#include <threads.h>",
-    "#include <time.h>",
-    "#include <uchar.h>",
-    "#include <wchar.h>",
-    "#include <wctype.h>",
-    # here down is arduino specific...
-    "#include <Arduino.h>",
-    "#include <SPI.h>",
-    "#include <SdFat.h>",
-}
-
-header = """
-/******************************************************************************/
-/**
- * @file        EmbedDB-Amalgamation
- * @author      EmbedDB Team (See Authors.md)
- * @brief       Source code amalgamated into one file for easy distribution
- * @copyright   Copyright 2024
- *              EmbedDB Team
- * @par Redistribution and use in source and binary forms, with or without
- *  modification, are permitted provided that the following conditions are met:
- *
- * @par 1.Redistributions of source code must retain the above copyright notice,
- *  this list of conditions and the following disclaimer.
- *
- * @par 2.Redistributions in binary form must reproduce the above copyright notice,
- *  this list of conditions and the following disclaimer in the documentation
- *  and/or other materials provided with the distribution.
- *
- * @par 3.Neither the name of the copyright holder nor the names of its contributors
- *  may be used to endorse or promote products derived from this software without
- *  specific prior written permission.
- *
- * @par THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS IS"
- *  AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE
- *  IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE
- *  ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT HOLDER OR CONTRIBUTORS BE
- *  LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL, EXEMPLARY, OR
- *  CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF
- *  SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS
- *  INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN
- *  CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE)
- *  ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
- *  POSSIBILITY OF SUCH DAMAGE.
- */
-/******************************************************************************/  
-"""
-
-"""
-FILE PORTION
-"""
-
-
-def read_file(directory):
-    """
-    Reads the contents of a file and returns it as a string.
-
-    This function attempts to open a file in read-only mode and read its entire contents into a single string, which is then returned. If the function encounters an error while trying to open or read the file (such as the file not existing, lacking the necessary permissions, or the directory not being a valid file path), it will catch the exception, print an error message, and the function will return None.
-
-    :param directory: The path to the file that needs to be read. This should be a string representing a valid file path.
-
-    :return: The contents of the file as a string if the file is successfully read. Returns None if an error occurs during file reading.
-
-    :raises Exception: Prints an error message with the exception detail but does not raise it further. The function handles all exceptions internally and does not propagate them.
-    """
-    try:
-        with open(directory, "r") as file:
-            contents = file.read()
-        return contents
-    except Exception as e:
-        sys.stderr.write(f"An error occurred opening the file: {e}\n")
-        sys.exit(1)
-
-
-def save_file(source, file_name, extension, directory=None):
-    """
-    Writes the provided source content to a file with the specified file name and extension in the specified directory or a default directory if none is specified.
-
-    This function creates a new file or overwrites an existing file in the specified directory (or the default directory if none is provided) with the given file name and extension. It writes the source content to this file.
-    The function expects the extension to be provided without a preceding dot (e.g., "txt" instead of ".txt").
-    The directory should be provided as a path, which could be absolute or relative. If the directory is not provided, the file will be saved in the current working directory.
-    If an error occurs during file writing (such as permission issues, an invalid file name, or issues creating the directory), the function will catch and print the exception.
-
-    :param source: The content to be written to the file. This should be a string.
-    :param file_name: The name of the file without the extension. This should be a string.
-    :param extension: The extension of the file without a preceding dot. This function expects values like 'txt' for text files, 'py' for Python files, etc.
-    :param directory: The path to the directory where the file will be saved. If None, the file will be saved in the current working directory.
-
-    :return: None. The function does not return a value but prints an error message if an exception occurs.
-
-    :raises Exception: Catches any exceptions that occur during file writing and prints them. The function does not re-raise the exceptions.
-    """
-    if directory is None:
-        directory = (
-            os.getcwd()
-        )  # Use current working directory if no directory is provided
-
-    if not os.path.exists(directory):
-        try:
-            os.makedirs(directory)
-        except OSError as e:
-            sys.stderr.write(f"An error occurred creating the directory: {e}\n")
-            sys.exit(1)
-
-    file_path = os.path.join(directory, file_name + "." + extension)
-    try:
-        with open(file_path, "w") as file:
-            file.write(source)
-    except Exception as e:
-        sys.stderr.write(f"An error occurred saving the file: {e}\n")
-        sys.exit(1)
-
-
-def get_all_files_of_type(directory, file_extension):
-    """
-    Searches for and returns a list of all files with a specific extension within a specified directory and its subdirectories.
-
-    This function utilizes the `glob` module to search for files. It constructs a search pattern using the provided directory and file extension, then performs a recursive search to find all matching files.
-    If the directory does not exist or there are no files matching the given extension, the function returns an empty list.
-
-    :param directory: The base directory from which the search should start. This should be a string representing a valid directory path.
-    :param file_extension: The file extension to search for. This should be provided without a preceding dot (e.g., "txt" for text files).
-
-    :return: A list of strings, where each string is the path to a file that matches the specified extension. If no files are found or the directory does not exist, an empty list is returned.
-
-    Note: The function returns a relative path to each file from the current working directory.
-    """
-    search_pattern = os.path.join(directory, "**", f"*.{file_extension}")
-    files = glob.glob(search_pattern, recursive=True)
-    return files
-
-
-"""
-CLEANING PORTION
-"""
-
-
-def retrieve_pattern_from_source(source, pattern):
-    """
-    Extracts and returns all unique #include statements from a given source code string using a regular expression.
-
-    The function employs a regular expression to identify all occurrences of #include statements in the provided source code.
-    It then formats these findings and returns them as a set, ensuring each include statement is unique in the result.
-    The regular expression used is designed to be robust and has been adapted from a solution on StackOverflow.
-
-    :param source: The source code string from which #include statements are to be extracted.
-
-    :return: A set of strings, each representing a unique #include statement found in the source code. If no #include statements are found, an empty set is returned.
-
-    """
-    result = re.findall(pattern, source)
-    return set([f"#include {match[0]}" for match in result])
-
-
-def remove_pattern_from_source(source, pattern):
-    """
-    Removes all #include statements from a C or C++ source file content.
-
-    This function uses a regular expression to find and replace all occurrences of #include statements in the provided source code string with a space, effectively removing them.
-    The function is intended to be used with source code from .c or .h files.
-
-    :param source: The source code string from which #include statements are to be removed. This should be the content of a .c or .h file as a string.
-
-    :return: A string representing the source code with all #include statements removed. If no #include statements are found, the original source string is returned unchanged.
-    """
-
-    return re.sub(pattern, " ", source)
-
-
-def check_against_standard_library(c_stand, incoming_lib, amalg_c_stand_lib):
-    """
-    Validates a set of C library headers against the Standard C Library headers and updates a set with the valid standard libraries.
-
-    This function reads a predefined list of Standard C Library headers from a file, compares the incoming library headers against this list, and determines which of the incoming headers are part of the Standard C Library.
-    It updates the provided set with these valid standard libraries. The headers that are not part of the standard library are returned as a set.
-
-    :param incoming_lib: A set of strings representing the library headers to be checked against the standard C library.
-    :param amalg_c_stand_lib: A set that is updated with the headers from incoming_lib that are part of the standard C library.
-
-    :return: A set of strings representing the headers from incoming_lib that are not part of the standard C library. If all incoming headers are standard, an empty set is returned.
-    """
-
-    not_standard_lib = incoming_lib.difference(c_stand)
-    required_standard_lib = incoming_lib - not_standard_lib
-
-    amalg_c_stand_lib.update(required_standard_lib)
-
-    # return the difference between the two sets
-    return not_standard_lib
-
-
-def format_external_lib(incoming_lib):
-    """
-    Transforms include statements with relative paths into just the file names.
-
-    This function takes a set of include statements that may contain relative paths (e.g., #include "../src/EmbedDB.h") and extracts just the file names (e.g., "EmbedDB.h").
-    It returns a new set containing these file names, ensuring that each name is unique within the set.
-
-    :param incoming_lib: A set of strings, each representing an include statement possibly containing a relative path.
-
-    :return: A set of strings where each string is a file name extracted from the include statements. If the incoming set is empty, the function returns an empty set.
-
-    Note: The function assumes that the include statements are formatted with double quotes around the paths (e.g., #include "path/to/file").
-    It does not handle angle-bracketed include statements (e.g., #include <file>), as those are assumbed to be included from c-standard libraries
-    """
-    temp = set()
-
-    # extract each dependency from incoming_lib and add it to the set
-
-    for lib in incoming_lib:
-        path = lib.split('"')[1]
-        file = os.path.basename(path)
-        temp.add(file)
-
-    return temp
-
-
-""" 
-Dealing with FileNode
-"""
-
-
-def retrieve_source_set(source_dir, file_type, c_lib=c_stand, ignore_empty=False):
-    """
-    Generates a set of FileNode objects for each file of a specified type in a source directory and its subdirectories.
-
-    This function scans a given directory and its subdirectories for files with a specified extension. It creates a FileNode object for each file found and adds it to a set,
-    ensuring that each file is represented uniquely.
-
-    :param source_dir: The path to the directory containing the source files. This function will also search all subdirectories. Can take either a string or a list.
-    :param file_type: The file extension of the files to be processed (e.g., 'h' for C header files or 'c' for C source files).
-
-    :returns: A set of FileNode objects, each representing a unique file of the specified type found in the source directory and its subdirectories.
-
-    Note: The FileNode class should be defined elsewhere in the code, and it should have a constructor that accepts a file path as a parameter.
-    """
-
-    if isinstance(source_dir, str):
-        source_dir = [source_dir]
-
-    file_set = set()
-    dirs = []  # list of strings
-
-    for source in source_dir:
-        files = get_all_files_of_type(source, file_type)
-        dirs.extend(files)
-
-    # alphabeitcalize for deterministic results
-    dirs = sorted(dirs)
-
-    if dirs:
-        for dir in dirs:
-            # create a new object for each file
-            file = FileNode(dir, c_lib)
-            # append to the set
-            file_set.add(file)
-        return file_set
-    else:
-        if ignore_empty:
-            return []
-        else:
-            sys.stderr.write(f"There was an issue opening files, no files found\n")
-            sys.exit(1)
-
-
-def combine_c_standard_lib(array_of_sets):
-    """
-    Aggregates C standard library dependencies from multiple FileNode objects into a single set.
-
-    This function iterates over an array of sets, where each set contains FileNode objects.
-    It extracts the C standard library dependencies (c_stand_dep) from each FileNode and combines them into a master set.
-    This master set represents all unique C standard library dependencies required by the amalgamated source file.
-
-    :param array_of_sets: An array (or list) of sets, where each set contains FileNode objects. Each FileNode object should have a 'c_stand_dep' attribute,
-    which is a set of its C standard library dependencies.
-
-    :return: A set containing all unique C standard library dependencies from the provided FileNode objects. If no dependencies are found, an empty set is returned.
-
-    Note: This function assumes that each FileNode object in the sets has a 'c_stand_dep' attribute containing a set of strings, each representing a C standard library dependency.
-    """
-    master_dep = set()
-
-    for item in array_of_sets:
-        for file in item:
-            dep = file.c_stand_dep
-            master_dep.update(dep)
-
-    return master_dep
-
-
-"""
-Directed Graph Portion 
-"""
-
-
-def create_directed_graph(set_of_FileNodes):
-    """
-    Constructs a directed graph from a set of FileNode objects.
-
-    This function iterates through a set of FileNode objects, using each FileNode 'file_name' attribute as a node in the graph.
-    The 'header_dep' attribute of each FileNode, which should be a set of strings representing the file names of dependencies, is used to create edges in the graph.
-    Each node in the resulting graph points to its dependencies, establishing a directed relationship.
-
-    :param set_of_FileNodes: A set of FileNode objects. Each FileNode should have a 'file_name' attribute representing the node's name and a 'header_dep'
-    attribute representing the edges as dependencies.
-
-    :return: A dictionary representing a directed graph. The keys are file names (nodes), and the values are sets of file names (edges) representing dependencies.
-
-    Note: This function assumes that the 'file_name' and 'header_dep' attributes of each FileNode object are properly populated and that 'header_dep'
-    contains the names of files that each file node depends on.
-    """
-    directed_graph = {}
-
-    # Each FileNode's file_name becomes value of node, edges are the dependency set each obj contains
-    for file_node in set_of_FileNodes:
-        node = file_node.file_name
-        edges = file_node.header_dep
-        directed_graph[node] = edges
-
-    return directed_graph
-
-
-def dfs(graph, node, visited, result_stack, visiting):
-    """
-    Performs a depth-first search on a graph from a specified starting node, marking visited nodes during traversal and recording the traversal order only when the last node is found to
-    return a subsection of a topological result.
-
-    This function explores as far as possible along each branch before backtracking. It's a recursive implementation that updates the 'visited' set to keep track of
-    visited nodes and appends each node to the 'result_stack' once all its descendants have been explored.
-
-    :param graph: A dictionary representing the adjacency list of the graph. Keys are node identifiers, and values are sets or lists of connected nodes.
-    :param node: The node from which to start the DFS.
-    :param visited: A set that keeps track of which nodes have been visited to avoid revisiting them.
-    :param result_stack: A list that records the order in which nodes are fully explored. Nodes are added to this stack once all their children have been visited.
-
-    :return: None. The function updates the 'visited' set and 'result_stack' list in place.
-
-    Note: The graph should be represented as an adjacency list, where each key is a node and its value is a collection of nodes to which it is connected.
-    The function modifies 'visited' and 'result_stack' in place, so it does not return any value.
-    """
-
-    # add node to visited array so we do not visit it again
-    visited.add(node)
-    visiting.append(node)
-
-    # for each node's decendant
-    for child in graph[node]:
-        # check if cylcic
-        if child in visiting:
-            sys.stderr.write(
-                f"An error occured in program depedencies, a cycle with {child} was found\n"
-            )
-            sys.exit(1)
-        # only traverse unvisited nodes
-        if child not in visited:
-            # traverse grandchildren
-            dfs(graph, child, visited, result_stack, visiting)
-
-    visiting.remove(node)
-    # once at the end of dfs, add results to the stack
-    result_stack.append(node)
-
-
-def topsort(graph):
-    """
-    Performs a topological sort on a directed graph.
-
-    This function implements a topological sort algorithm, which orders the nodes in a directed graph in a linear order, respecting the dependencies represented by the edges.
-    It uses a depth-first search (DFS) to explore the graph and a stack to determine the order of nodes.
-
-    :param graph: A dictionary representing the adjacency list of the graph. Keys are node identifiers, and values are sets or lists of connected nodes.
-
-    :return: A deque (double-ended queue) representing the nodes in topologically sorted order.
-
-    Note: The graph should not contain any cycles for a valid topological sort to be possible. If the graph contains cycles, the result will not represent a valid topological ordering.
-    TODO use Tarjans strongly connected component algorithm to detect if a graph has cycles. StackOverFlow also suggests that we can detect a cycle in our algorithm too
-    """
-    # TODO try and sort alphabeitcally by filename to make it determinsitic
-
-    visited = set()
-    result_stack = deque()  # fast stack using the collections library
-    visiting = []
-
-    # for each node in the graph
-    for node in graph.keys():
-        # if the node is not visited, search using dfs, add nodes to visited
-        if node not in visited:
-            dfs(graph, node, visited, result_stack, visiting)
-
-    return list(result_stack)
-
-
-""" 
-Creating Amalgamation
-"""
-
-
-def order_file_nodes_by_sorted_filenames(header_file_nodes, sorted_graph):
-    """
-    Reorders a collection of FileNode objects based on a sorted list of filenames.
-
-    This function creates a mapping from filenames to their corresponding FileNode objects and then uses a sorted list of filenames to arrange the FileNode objects in the same order.
-    The function assumes that each filename in the sorted list has a corresponding FileNode object in the input collection.
-
-    :param header_file_nodes: A collection (e.g., list or set) of FileNode objects to be reordered. Each FileNode should have a 'file_name' attribute.
-    :param sorted_graph: A list of filenames (strings) representing the desired order for the FileNode objects.
-    :param isCpp:
-
-    :return: A list of FileNode objects ordered according to the order of filenames in 'sorted_graph'.
-
-    Note: The function assumes that 'sorted_graph' contains all filenames corresponding to the FileNode objects in 'header_file_nodes' and that the 'file_name' attribute of each FileNode is unique within
-    'header_file_nodes'.
-    """
-
-    filename_to_filenode = {}
-
-    for FileNode in header_file_nodes:
-        name = FileNode.file_name
-        filename_to_filenode[name] = FileNode
-
-    ordered = []
-
-    for node in sorted_graph:
-        ordered.append(filename_to_filenode[node])
-
-    return ordered
-
-
-def create_amalgamation(files, isCpp):
-    amalgamation = ""
-
-    if isCpp:
-        openExtern = """
-            #ifdef __cplusplus
-            extern "C" {
-            #endif
-        """
-        closeExtern = """
-            #ifdef __cplusplus
-            }
-            #endif
-        """
-
-    for file in files:
-        if isinstance(file, FileNode):
-            filename = (
-                "/************************************************************"
-                + file.file_name
-                + "************************************************************/\n"
-            )
-            # .cpp compiler must treat .c source code to prevent name mangling etc.
-            if isCpp == True and file.file_ext == ".c":
-                amalgamation += (
-                    filename + openExtern + file.contents + closeExtern + "\n"
-                )
-            else:
-                amalgamation += filename + file.contents + "\n"
-
-        else:
-            amalgamation += file + "\n"
-
-    return amalgamation
-
-
-"""
-@TODO only open up standard-c-lib.txt once! 
-"""
-
-
-class FileNode:
-    """
-    A class to represent a file node which encapsulates file information and dependencies.
-
-    Attributes:
-        c_stand_dep (set): A class variable that stores C standard library dependencies.
-        header_dep (set): Stores header file dependencies for this specific file.
-        file_dir (str): The directory path of the file.
-        file_name (str): The name of the file.
-        contents (str): The contents of the file after processing.
-
-    Methods:
-        __init__(self, file_dir): Initializes the FileNode with directory information, reads the file,
-                                  processes its contents, and identifies dependencies.
-    """
-
-    c_stand_dep = set()
-    header_dep = set()
-    file_dir = ""
-    file_ext = ""
-    file_name = ""
-    contents = ""
-
-    def __init__(self, file_dir, c_lib):
-        """
-        Initializes the FileNode instance, reads the file, and processes its dependencies.
-
-        The initialization process involves reading the file's content, extracting its #include statements,
-        identifying local and standard library dependencies, removing include statements from the content, and
-        formatting local dependencies.
-
-        Args:
-            file_dir (str): The directory path of the file to be processed.
-
-        Steps:
-            1. Assigns the file directory and extracts the file name.
-            2. Reads the content of the file.
-            3. Retrieves all #include statements within the file content.
-            4. Identifies which of these includes are local dependencies and which are standard library dependencies.
-            5. Removes all #include statements from the file content.
-            6. Formats local dependencies to store only the file names.
-        """
-        # assign directory
-        self.file_dir = file_dir
-        # retrieve file name
-        self.file_name = os.path.basename(file_dir)
-        # retrieve file extension
-        self.file_ext = os.path.splitext(file_dir)[1]
-        # open file
-        original = read_file(file_dir)
-        # retrieve included libraries
-        includes = retrieve_pattern_from_source(original, REGEX_INCLUDE)
-        # find local dependencies
-        self.header_dep = check_against_standard_library(
-            c_lib, includes, self.c_stand_dep
-        )
-        # remove includes and assign source
-        self.contents = remove_pattern_from_source(original, REGEX_INCLUDE)
-        # format local dependencies
-        self.header_dep = format_external_lib(self.header_dep)
-
-
-def amalgamate(
-    dir, c_lib, file_name, isCpp=False, save_directory=None, split_header_files=True
-):
-    """
-    Amalgmates C source code similar to SQLite https://sqlite.org/amalgamation.html
-
-    Does this by reading in all .c and .h files in a directory, creates a FileNode object for each file which reads and saves the contents, then parses through the content to find which
-    libraries it uses, and saves two dependency lists. The first one, 'c_stand_dep', is a list containing the standard c-lib that the file relies on, which is also specified as an argument
-    to this function so useres can modify this depending on the project. The second dependency list, 'header_dep', is all the different header files inside the directory each source file relies upon.
-    A topological sort is perfomed on that dependency list to create a non-unqiue though somewhat determinsitc ordering of the file dependency. It is somewhat determinsitic because retrieve_source_set
-    returns files alphabetically sorted.
-
-    :param dir: a directory pointing to the source file you would like to amalgamate
-    :param c_lib:  set of standard c libraries that are not in your project source files. These libraries are not used in topological sorting so they will not be amaglamated.
-    May change depending on the nature of your project.
-    :param file_name: the name of the amalgamated file
-    :param isCPP: dictates whether to save the file as a .cpp file or a .c file. Does not influence if EmbedDB will read .cpp files.
-    :param save_directory: the directory you would like the amalgamation files saved too. Saves to the root directory by default.
-    :param split_header_files: An optional boolean argument that prevents the amalgamation from splitting the source files.
-
-
-    """
-
-    """
-    Create a set of FileNode objects for each file type. FileNode objects will automatically parse the file, clean, compare with the C stand-lib defined as an argument, 
-    and create a small dependency graph. Sets are used to maintain uniqueness.
-    """
-    header_file_nodes = retrieve_source_set(dir, "h", c_lib)
-    source_file_nodes = retrieve_source_set(dir, "c", c_lib)
-    if isCpp:
-        cpp_files_nodes = retrieve_source_set(dir, "cpp", c_lib, True)
-
-    """
-    Since each FileNode object contains a set of which files they rely on, combining into a global set is nec to amalgamation.
-    """
-    c_standard_dep = combine_c_standard_lib(
-        [header_file_nodes, source_file_nodes, cpp_files_nodes if isCpp else []]
-    )
-
-    """
-    Next step is iterating over the set containing the header files and creating a directed graph for all the dependencies. 
-    """
-    dir_graph = create_directed_graph(header_file_nodes)
-
-    """
-    Need to alphabetize the items before getting the sorted graph so the same output is produced if there are no actual 
-    changes in the files.
-    """
-    alphabetical_directory_graph = dict(sorted(dir_graph.items()))
-    list_graph = {
-        key: sorted(list(value)) for key, value in alphabetical_directory_graph.items()
-    }
-
-    """
-    Perform a topological sort to determine the ordering of the files
-    """
-    sorted_graph = topsort(list_graph)
-
-    """
-    The next step is taking the topological sort and basically extracting them into two files, one having all the .c code 
-    and the other having all the .h code so it's easy to include in other projects, and finally saving the files.
-    """
-    sorted_h = order_file_nodes_by_sorted_filenames(header_file_nodes, sorted_graph)
-    amalg_h = create_amalgamation(c_standard_dep, isCpp) + create_amalgamation(
-        sorted_h, isCpp
-    )
-
-    sorted_graph_c_files = [item.replace(".h", ".c") for item in sorted_graph]
-    sorted_c = order_file_nodes_by_sorted_filenames(
-        source_file_nodes, sorted_graph_c_files
-    )
-    amalg_c = create_amalgamation(sorted_c, isCpp)
-    if isCpp:
-        amalg_cpp = create_amalgamation(cpp_files_nodes, isCpp)
-
-    # save
-    if split_header_files:
-        save_file(header + amalg_h, file_name, "h", save_directory)
-        save_file(
-            '#include "./embedDB.h"\n' + header + amalg_c,
-            file_name,
-            "cpp" if isCpp else "c",
-            save_directory,
-        )
-    else:
-        save_file(
-            header + amalg_h + "\n" + amalg_c,
-            file_name,
-            "cpp" if isCpp else "c",
-            save_directory,
-        )
-
-
-def main():
-    # Load directories
-    project_root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
-    embed_db = os.path.join(project_root, "src", "embedDB")
-    query_interface = os.path.join(project_root, "src", "query-interface")
-    spline = os.path.join(project_root, "src", "spline")
-    utility = os.path.join(project_root, "lib", "EmbedDB-Utility")
-    output_directory = os.path.join(project_root, "lib", "Distribution")
-    # create standard embedDB amalgamation
-    amalgamate(
-        [embed_db, query_interface, spline, utility],
-        aud_stand,
-        "embedDB",
-        False,
-        output_directory,
-    )
-
-
-if __name__ == "__main__":
-    main()
+from collections import deque
+import glob
+import os
+import re
+import sys
+
+"""
+GLOBAL VARIABLES: DO NOT EDIT
+"""
+
+# REGEX
+REGEX_INCLUDE = r'\s*#include ((<[^>]+>)|("[^"]+"))'  # https://stackoverflow.com/questions/1420017/regular-expression-to-match-c-include-file
+REGEX_COMMENTS = r"//.*?\n|/\*.*?\*/"
+
+# standard libraries
+c_stand = {
+    "#include <assert.h>",
+    "#include <complex.h>",
+    "#include <ctype.h>",
+    "#include <errno.h>",
+    "#include <fenv.h>",
+    "#include <float.h>",
+    "#include <inttypes.h>",
+    "#include <iso646.h>",
+    "#include <limits.h>",
+    "#include <locale.h>",
+    "#include <math.h>",
+    "#include <setjmp.h>",
+    "#include <signal.h>",
+    "#include <stdalign.h>",
+    "#include <stdarg.h>",
+    "#include <stdatomic.h>",
+    "#include <stdbool.h>",
+    "#include <stddef.h>",
+    "#include <stdint.h>",
+    "#include <stdio.h>",
+    "#include <stdlib.h>",
+    "#include <stdnoreturn.h>",
+    "#include <string.h>",
+    "#include <tgmath.h>",
+    "#include <threads.h>",
+    "#include <time.h>",
+    "#include <uchar.h>",
+    "#include <wchar.h>",
+    "#include <wctype.h>",
+}
+
+aud_stand = {
+    "#include <assert.h>",
+    "#include <complex.h>",
+    "#include <ctype.h>",
+    "#include <errno.h>",
+    "#include <fenv.h>",
+    "#include <float.h>",
+    "#include <inttypes.h>",
+    "#include <iso646.h>",
+    "#include <limits.h>",
+    "#include <locale.h>",
+    "#include <math.h>",
+    "#include <setjmp.h>",
+    "#include <signal.h>",
+    "#include <stdalign.h>",
+    "#include <stdarg.h>",
+    "#include <stdatomic.h>",
+    "#include <stdbool.h>",
+    "#include <stddef.h>",
+    "#include <stdint.h>",
+    "#include <stdio.h>",
+    "#include <stdlib.h>",
+    "#include <stdnoreturn.h>",
+    "#include <string.h>",
+    "#include <tgmath.h>",
+    "#include <threads.h>",
+    "#include <time.h>",
+    "#include <uchar.h>",
+    "#include <wchar.h>",
+    "#include <wctype.h>",
+    # here down is arduino specific...
+    "#include <Arduino.h>",
+    "#include <SPI.h>",
+    "#include <SdFat.h>",
+}
+
+header = """
+/******************************************************************************/
+/**
+ * @file        EmbedDB-Amalgamation
+ * @author      EmbedDB Team (See Authors.md)
+ * @brief       Source code amalgamated into one file for easy distribution
+ * @copyright   Copyright 2024
+ *              EmbedDB Team
+ * @par Redistribution and use in source and binary forms, with or without
+ *  modification, are permitted provided that the following conditions are met:
+ *
+ * @par 1.Redistributions of source code must retain the above copyright notice,
+ *  this list of conditions and the following disclaimer.
+ *
+ * @par 2.Redistributions in binary form must reproduce the above copyright notice,
+ *  this list of conditions and the following disclaimer in the documentation
+ *  and/or other materials provided with the distribution.
+ *
+ * @par 3.Neither the name of the copyright holder nor the names of its contributors
+ *  may be used to endorse or promote products derived from this software without
+ *  specific prior written permission.
+ *
+ * @par THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS IS"
+ *  AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE
+ *  IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE
+ *  ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT HOLDER OR CONTRIBUTORS BE
+ *  LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL, EXEMPLARY, OR
+ *  CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF
+ *  SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS
+ *  INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN
+ *  CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE)
+ *  ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
+ *  POSSIBILITY OF SUCH DAMAGE.
+ */
+/******************************************************************************/  
+"""
+
+"""
+FILE PORTION
+"""
+
+
+def read_file(directory):
+    """
+    Reads the contents of a file and returns it as a string.
+
+    This function attempts to open a file in read-only mode and read its entire contents into a single string, which is then returned. If the function encounters an error while trying to open or read the file (such as the file not existing, lacking the necessary permissions, or the directory not being a valid file path), it will catch the exception, print an error message, and the function will return None.
+
+    :param directory: The path to the file that needs to be read. This should be a string representing a valid file path.
+
+    :return: The contents of the file as a string if the file is successfully read. Returns None if an error occurs during file reading.
+
+    :raises Exception: Prints an error message with the exception detail but does not raise it further. The function handles all exceptions internally and does not propagate them.
+    """
+    try:
+        with open(directory, "r") as file:
+            contents = file.read()
+        return contents
+    except Exception as e:
+        sys.stderr.write(f"An error occurred opening the file: {e}\n")
+        sys.exit(1)
+
+
+def save_file(source, file_name, extension, directory=None):
+    """
+    Writes the provided source content to a file with the specified file name and extension in the specified directory or a default directory if none is specified.
+
+    This function creates a new file or overwrites an existing file in the specified directory (or the default directory if none is provided) with the given file name and extension. It writes the source content to this file.
+    The function expects the extension to be provided without a preceding dot (e.g., "txt" instead of ".txt").
+    The directory should be provided as a path, which could be absolute or relative. If the directory is not provided, the file will be saved in the current working directory.
+    If an error occurs during file writing (such as permission issues, an invalid file name, or issues creating the directory), the function will catch and print the exception.
+
+    :param source: The content to be written to the file. This should be a string.
+    :param file_name: The name of the file without the extension. This should be a string.
+    :param extension: The extension of the file without a preceding dot. This function expects values like 'txt' for text files, 'py' for Python files, etc.
+    :param directory: The path to the directory where the file will be saved. If None, the file will be saved in the current working directory.
+
+    :return: None. The function does not return a value but prints an error message if an exception occurs.
+
+    :raises Exception: Catches any exceptions that occur during file writing and prints them. The function does not re-raise the exceptions.
+    """
+    if directory is None:
+        directory = (
+            os.getcwd()
+        )  # Use current working directory if no directory is provided
+
+    if not os.path.exists(directory):
+        try:
+            os.makedirs(directory)
+        except OSError as e:
+            sys.stderr.write(f"An error occurred creating the directory: {e}\n")
+            sys.exit(1)
+
+    file_path = os.path.join(directory, file_name + "." + extension)
+    try:
+        with open(file_path, "w") as file:
+            file.write(source)
+    except Exception as e:
+        sys.stderr.write(f"An error occurred saving the file: {e}\n")
+        sys.exit(1)
+
+
+def get_all_files_of_type(directory, file_extension):
+    """
+    Searches for and returns a list of all files with a specific extension within a specified directory and its subdirectories.
+
+    This function utilizes the `glob` module to search for files. It constructs a search pattern using the provided directory and file extension, then performs a recursive search to find all matching files.
+    If the directory does not exist or there are no files matching the given extension, the function returns an empty list.
+
+    :param directory: The base directory from which the search should start. This should be a string representing a valid directory path.
+    :param file_extension: The file extension to search for. This should be provided without a preceding dot (e.g., "txt" for text files).
+
+    :return: A list of strings, where each string is the path to a file that matches the specified extension. If no files are found or the directory does not exist, an empty list is returned.
+
+    Note: The function returns a relative path to each file from the current working directory.
+    """
+    search_pattern = os.path.join(directory, "**", f"*.{file_extension}")
+    files = glob.glob(search_pattern, recursive=True)
+    return files
+
+
+"""
+CLEANING PORTION
+"""
+
+
+def retrieve_pattern_from_source(source, pattern):
+    """
+    Extracts and returns all unique #include statements from a given source code string using a regular expression.
+
+    The function employs a regular expression to identify all occurrences of #include statements in the provided source code.
+    It then formats these findings and returns them as a set, ensuring each include statement is unique in the result.
+    The regular expression used is designed to be robust and has been adapted from a solution on StackOverflow.
+
+    :param source: The source code string from which #include statements are to be extracted.
+
+    :return: A set of strings, each representing a unique #include statement found in the source code. If no #include statements are found, an empty set is returned.
+
+    """
+    result = re.findall(pattern, source)
+    return set([f"#include {match[0]}" for match in result])
+
+
+def remove_pattern_from_source(source, pattern):
+    """
+    Removes all #include statements from a C or C++ source file content.
+
+    This function uses a regular expression to find and replace all occurrences of #include statements in the provided source code string with a space, effectively removing them.
+    The function is intended to be used with source code from .c or .h files.
+
+    :param source: The source code string from which #include statements are to be removed. This should be the content of a .c or .h file as a string.
+
+    :return: A string representing the source code with all #include statements removed. If no #include statements are found, the original source string is returned unchanged.
+    """
+
+    return re.sub(pattern, " ", source)
+
+
+def check_against_standard_library(c_stand, incoming_lib, amalg_c_stand_lib):
+    """
+    Validates a set of C library headers against the Standard C Library headers and updates a set with the valid standard libraries.
+
+    This function reads a predefined list of Standard C Library headers from a file, compares the incoming library headers against this list, and determines which of the incoming headers are part of the Standard C Library.
+    It updates the provided set with these valid standard libraries. The headers that are not part of the standard library are returned as a set.
+
+    :param incoming_lib: A set of strings representing the library headers to be checked against the standard C library.
+    :param amalg_c_stand_lib: A set that is updated with the headers from incoming_lib that are part of the standard C library.
+
+    :return: A set of strings representing the headers from incoming_lib that are not part of the standard C library. If all incoming headers are standard, an empty set is returned.
+    """
+
+    not_standard_lib = incoming_lib.difference(c_stand)
+    required_standard_lib = incoming_lib - not_standard_lib
+
+    amalg_c_stand_lib.update(required_standard_lib)
+
+    # return the difference between the two sets
+    return not_standard_lib
+
+
+def format_external_lib(incoming_lib):
+    """
+    Transforms include statements with relative paths into just the file names.
+
+    This function takes a set of include statements that may contain relative paths (e.g., #include "../src/EmbedDB.h") and extracts just the file names (e.g., "EmbedDB.h").
+    It returns a new set containing these file names, ensuring that each name is unique within the set.
+
+    :param incoming_lib: A set of strings, each representing an include statement possibly containing a relative path.
+
+    :return: A set of strings where each string is a file name extracted from the include statements. If the incoming set is empty, the function returns an empty set.
+
+    Note: The function assumes that the include statements are formatted with double quotes around the paths (e.g., #include "path/to/file").
+    It does not handle angle-bracketed include statements (e.g., #include <file>), as those are assumbed to be included from c-standard libraries
+    """
+    temp = set()
+
+    # extract each dependency from incoming_lib and add it to the set
+
+    for lib in incoming_lib:
+        path = lib.split('"')[1]
+        file = os.path.basename(path)
+        temp.add(file)
+
+    return temp
+
+
+""" 
+Dealing with FileNode
+"""
+
+
+def retrieve_source_set(source_dir, file_type, c_lib=c_stand, ignore_empty=False):
+    """
+    Generates a set of FileNode objects for each file of a specified type in a source directory and its subdirectories.
+
+    This function scans a given directory and its subdirectories for files with a specified extension. It creates a FileNode object for each file found and adds it to a set,
+    ensuring that each file is represented uniquely.
+
+    :param source_dir: The path to the directory containing the source files. This function will also search all subdirectories. Can take either a string or a list.
+    :param file_type: The file extension of the files to be processed (e.g., 'h' for C header files or 'c' for C source files).
+
+    :returns: A set of FileNode objects, each representing a unique file of the specified type found in the source directory and its subdirectories.
+
+    Note: The FileNode class should be defined elsewhere in the code, and it should have a constructor that accepts a file path as a parameter.
+    """
+
+    if isinstance(source_dir, str):
+        source_dir = [source_dir]
+
+    file_set = set()
+    dirs = []  # list of strings
+
+    for source in source_dir:
+        files = get_all_files_of_type(source, file_type)
+        dirs.extend(files)
+
+    # alphabeitcalize for deterministic results
+    dirs = sorted(dirs)
+
+    if dirs:
+        for dir in dirs:
+            # create a new object for each file
+            file = FileNode(dir, c_lib)
+            # append to the set
+            file_set.add(file)
+        return file_set
+    else:
+        if ignore_empty:
+            return []
+        else:
+            sys.stderr.write(f"There was an issue opening files, no files found\n")
+            sys.exit(1)
+
+
+def combine_c_standard_lib(array_of_sets):
+    """
+    Aggregates C standard library dependencies from multiple FileNode objects into a single set.
+
+    This function iterates over an array of sets, where each set contains FileNode objects.
+    It extracts the C standard library dependencies (c_stand_dep) from each FileNode and combines them into a master set.
+    This master set represents all unique C standard library dependencies required by the amalgamated source file.
+
+    :param array_of_sets: An array (or list) of sets, where each set contains FileNode objects. Each FileNode object should have a 'c_stand_dep' attribute,
+    which is a set of its C standard library dependencies.
+
+    :return: A set containing all unique C standard library dependencies from the provided FileNode objects. If no dependencies are found, an empty set is returned.
+
+    Note: This function assumes that each FileNode object in the sets has a 'c_stand_dep' attribute containing a set of strings, each representing a C standard library dependency.
+    """
+    master_dep = set()
+
+    for item in array_of_sets:
+        for file in item:
+            dep = file.c_stand_dep
+            master_dep.update(dep)
+
+    return master_dep
+
+
+"""
+Directed Graph Portion 
+"""
+
+
+def create_directed_graph(set_of_FileNodes):
+    """
+    Constructs a directed graph from a set of FileNode objects.
+
+    This function iterates through a set of FileNode objects, using each FileNode 'file_name' attribute as a node in the graph.
+    The 'header_dep' attribute of each FileNode, which should be a set of strings representing the file names of dependencies, is used to create edges in the graph.
+    Each node in the resulting graph points to its dependencies, establishing a directed relationship.
+
+    :param set_of_FileNodes: A set of FileNode objects. Each FileNode should have a 'file_name' attribute representing the node's name and a 'header_dep'
+    attribute representing the edges as dependencies.
+
+    :return: A dictionary representing a directed graph. The keys are file names (nodes), and the values are sets of file names (edges) representing dependencies.
+
+    Note: This function assumes that the 'file_name' and 'header_dep' attributes of each FileNode object are properly populated and that 'header_dep'
+    contains the names of files that each file node depends on.
+    """
+    directed_graph = {}
+
+    # Each FileNode's file_name becomes value of node, edges are the dependency set each obj contains
+    for file_node in set_of_FileNodes:
+        node = file_node.file_name
+        edges = file_node.header_dep
+        directed_graph[node] = edges
+
+    return directed_graph
+
+
+def dfs(graph, node, visited, result_stack, visiting):
+    """
+    Performs a depth-first search on a graph from a specified starting node, marking visited nodes during traversal and recording the traversal order only when the last node is found to
+    return a subsection of a topological result.
+
+    This function explores as far as possible along each branch before backtracking. It's a recursive implementation that updates the 'visited' set to keep track of
+    visited nodes and appends each node to the 'result_stack' once all its descendants have been explored.
+
+    :param graph: A dictionary representing the adjacency list of the graph. Keys are node identifiers, and values are sets or lists of connected nodes.
+    :param node: The node from which to start the DFS.
+    :param visited: A set that keeps track of which nodes have been visited to avoid revisiting them.
+    :param result_stack: A list that records the order in which nodes are fully explored. Nodes are added to this stack once all their children have been visited.
+
+    :return: None. The function updates the 'visited' set and 'result_stack' list in place.
+
+    Note: The graph should be represented as an adjacency list, where each key is a node and its value is a collection of nodes to which it is connected.
+    The function modifies 'visited' and 'result_stack' in place, so it does not return any value.
+    """
+
+    # add node to visited array so we do not visit it again
+    visited.add(node)
+    visiting.append(node)
+
+    # for each node's decendant
+    for child in graph[node]:
+        # check if cylcic
+        if child in visiting:
+            sys.stderr.write(
+                f"An error occured in program depedencies, a cycle with {child} was found\n"
+            )
+            sys.exit(1)
+        # only traverse unvisited nodes
+        if child not in visited:
+            # traverse grandchildren
+            dfs(graph, child, visited, result_stack, visiting)
+
+    visiting.remove(node)
+    # once at the end of dfs, add results to the stack
+    result_stack.append(node)
+
+
+def topsort(graph):
+    """
+    Performs a topological sort on a directed graph.
+
+    This function implements a topological sort algorithm, which orders the nodes in a directed graph in a linear order, respecting the dependencies represented by the edges.
+    It uses a depth-first search (DFS) to explore the graph and a stack to determine the order of nodes.
+
+    :param graph: A dictionary representing the adjacency list of the graph. Keys are node identifiers, and values are sets or lists of connected nodes.
+
+    :return: A deque (double-ended queue) representing the nodes in topologically sorted order.
+
+    Note: The graph should not contain any cycles for a valid topological sort to be possible. If the graph contains cycles, the result will not represent a valid topological ordering.
+    TODO use Tarjans strongly connected component algorithm to detect if a graph has cycles. StackOverFlow also suggests that we can detect a cycle in our algorithm too
+    """
+    # TODO try and sort alphabeitcally by filename to make it determinsitic
+
+    visited = set()
+    result_stack = deque()  # fast stack using the collections library
+    visiting = []
+
+    # for each node in the graph
+    for node in graph.keys():
+        # if the node is not visited, search using dfs, add nodes to visited
+        if node not in visited:
+            dfs(graph, node, visited, result_stack, visiting)
+
+    return list(result_stack)
+
+
+""" 
+Creating Amalgamation
+"""
+
+
+def order_file_nodes_by_sorted_filenames(header_file_nodes, sorted_graph):
+    """
+    Reorders a collection of FileNode objects based on a sorted list of filenames.
+
+    This function creates a mapping from filenames to their corresponding FileNode objects and then uses a sorted list of filenames to arrange the FileNode objects in the same order.
+    The function assumes that each filename in the sorted list has a corresponding FileNode object in the input collection.
+
+    :param header_file_nodes: A collection (e.g., list or set) of FileNode objects to be reordered. Each FileNode should have a 'file_name' attribute.
+    :param sorted_graph: A list of filenames (strings) representing the desired order for the FileNode objects.
+    :param isCpp:
+
+    :return: A list of FileNode objects ordered according to the order of filenames in 'sorted_graph'.
+
+    Note: The function assumes that 'sorted_graph' contains all filenames corresponding to the FileNode objects in 'header_file_nodes' and that the 'file_name' attribute of each FileNode is unique within
+    'header_file_nodes'.
+    """
+
+    filename_to_filenode = {}
+
+    for FileNode in header_file_nodes:
+        name = FileNode.file_name
+        filename_to_filenode[name] = FileNode
+
+    ordered = []
+
+    for node in sorted_graph:
+        ordered.append(filename_to_filenode[node])
+
+    return ordered
+
+
+def create_amalgamation(files, isCpp):
+    amalgamation = ""
+
+    if isCpp:
+        openExtern = """
+            #ifdef __cplusplus
+            extern "C" {
+            #endif
+        """
+        closeExtern = """
+            #ifdef __cplusplus
+            }
+            #endif
+        """
+
+    for file in files:
+        if isinstance(file, FileNode):
+            filename = (
+                "/************************************************************"
+                + file.file_name
+                + "************************************************************/\n"
+            )
+            # .cpp compiler must treat .c source code to prevent name mangling etc.
+            if isCpp == True and file.file_ext == ".c":
+                amalgamation += (
+                    filename + openExtern + file.contents + closeExtern + "\n"
+                )
+            else:
+                amalgamation += filename + file.contents + "\n"
+
+        else:
+            amalgamation += file + "\n"
+
+    return amalgamation
+
+
+"""
+@TODO only open up standard-c-lib.txt once! 
+"""
+
+
+class FileNode:
+    """
+    A class to represent a file node which encapsulates file information and dependencies.
+
+    Attributes:
+        c_stand_dep (set): A class variable that stores C standard library dependencies.
+        header_dep (set): Stores header file dependencies for this specific file.
+        file_dir (str): The directory path of the file.
+        file_name (str): The name of the file.
+        contents (str): The contents of the file after processing.
+
+    Methods:
+        __init__(self, file_dir): Initializes the FileNode with directory information, reads the file,
+                                  processes its contents, and identifies dependencies.
+    """
+
+    c_stand_dep = set()
+    header_dep = set()
+    file_dir = ""
+    file_ext = ""
+    file_name = ""
+    contents = ""
+
+    def __init__(self, file_dir, c_lib):
+        """
+        Initializes the FileNode instance, reads the file, and processes its dependencies.
+
+        The initialization process involves reading the file's content, extracting its #include statements,
+        identifying local and standard library dependencies, removing include statements from the content, and
+        formatting local dependencies.
+
+        Args:
+            file_dir (str): The directory path of the file to be processed.
+
+        Steps:
+            1. Assigns the file directory and extracts the file name.
+            2. Reads the content of the file.
+            3. Retrieves all #include statements within the file content.
+            4. Identifies which of these includes are local dependencies and which are standard library dependencies.
+            5. Removes all #include statements from the file content.
+            6. Formats local dependencies to store only the file names.
+        """
+        # assign directory
+        self.file_dir = file_dir
+        # retrieve file name
+        self.file_name = os.path.basename(file_dir)
+        # retrieve file extension
+        self.file_ext = os.path.splitext(file_dir)[1]
+        # open file
+        original = read_file(file_dir)
+        # retrieve included libraries
+        includes = retrieve_pattern_from_source(original, REGEX_INCLUDE)
+        # find local dependencies
+        self.header_dep = check_against_standard_library(
+            c_lib, includes, self.c_stand_dep
+        )
+        # remove includes and assign source
+        self.contents = remove_pattern_from_source(original, REGEX_INCLUDE)
+        # format local dependencies
+        self.header_dep = format_external_lib(self.header_dep)
+
+
+def amalgamate(
+    dir, c_lib, file_name, isCpp=False, save_directory=None, split_header_files=True
+):
+    """
+    Amalgmates C source code similar to SQLite https://sqlite.org/amalgamation.html
+
+    Does this by reading in all .c and .h files in a directory, creates a FileNode object for each file which reads and saves the contents, then parses through the content to find which
+    libraries it uses, and saves two dependency lists. The first one, 'c_stand_dep', is a list containing the standard c-lib that the file relies on, which is also specified as an argument
+    to this function so useres can modify this depending on the project. The second dependency list, 'header_dep', is all the different header files inside the directory each source file relies upon.
+    A topological sort is perfomed on that dependency list to create a non-unqiue though somewhat determinsitc ordering of the file dependency. It is somewhat determinsitic because retrieve_source_set
+    returns files alphabetically sorted.
+
+    :param dir: a directory pointing to the source file you would like to amalgamate
+    :param c_lib:  set of standard c libraries that are not in your project source files. These libraries are not used in topological sorting so they will not be amaglamated.
+    May change depending on the nature of your project.
+    :param file_name: the name of the amalgamated file
+    :param isCPP: dictates whether to save the file as a .cpp file or a .c file. Does not influence if EmbedDB will read .cpp files.
+    :param save_directory: the directory you would like the amalgamation files saved too. Saves to the root directory by default.
+    :param split_header_files: An optional boolean argument that prevents the amalgamation from splitting the source files.
+
+
+    """
+
+    """
+    Create a set of FileNode objects for each file type. FileNode objects will automatically parse the file, clean, compare with the C stand-lib defined as an argument, 
+    and create a small dependency graph. Sets are used to maintain uniqueness.
+    """
+    header_file_nodes = retrieve_source_set(dir, "h", c_lib)
+    source_file_nodes = retrieve_source_set(dir, "c", c_lib)
+    if isCpp:
+        cpp_files_nodes = retrieve_source_set(dir, "cpp", c_lib, True)
+
+    """
+    Since each FileNode object contains a set of which files they rely on, combining into a global set is nec to amalgamation.
+    """
+    c_standard_dep = combine_c_standard_lib(
+        [header_file_nodes, source_file_nodes, cpp_files_nodes if isCpp else []]
+    )
+
+    """
+    Next step is iterating over the set containing the header files and creating a directed graph for all the dependencies. 
+    """
+    dir_graph = create_directed_graph(header_file_nodes)
+
+    """
+    Need to alphabetize the items before getting the sorted graph so the same output is produced if there are no actual 
+    changes in the files.
+    """
+    alphabetical_directory_graph = dict(sorted(dir_graph.items()))
+    list_graph = {
+        key: sorted(list(value)) for key, value in alphabetical_directory_graph.items()
+    }
+
+    """
+    Perform a topological sort to determine the ordering of the files
+    """
+    sorted_graph = topsort(list_graph)
+
+    """
+    The next step is taking the topological sort and basically extracting them into two files, one having all the .c code 
+    and the other having all the .h code so it's easy to include in other projects, and finally saving the files.
+    """
+    sorted_h = order_file_nodes_by_sorted_filenames(header_file_nodes, sorted_graph)
+    amalg_h = create_amalgamation(sorted(c_standard_dep), isCpp) + create_amalgamation(
+        sorted_h, isCpp
+    )
+
+    sorted_graph_c_files = [item.replace(".h", ".c") for item in sorted_graph]
+    sorted_c = order_file_nodes_by_sorted_filenames(
+        source_file_nodes, sorted_graph_c_files
+    )
+    amalg_c = create_amalgamation(sorted_c, isCpp)
+    if isCpp:
+        amalg_cpp = create_amalgamation(cpp_files_nodes, isCpp)
+
+    # save
+    if split_header_files:
+        save_file(header + amalg_h, file_name, "h", save_directory)
+        save_file(
+            '#include "./embedDB.h"\n' + header + amalg_c,
+            file_name,
+            "cpp" if isCpp else "c",
+            save_directory,
+        )
+    else:
+        save_file(
+            header + amalg_h + "\n" + amalg_c,
+            file_name,
+            "cpp" if isCpp else "c",
+            save_directory,
+        )
+
+
+def main():
+    # Load directories
+    project_root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
+    embed_db = os.path.join(project_root, "src", "embedDB")
+    query_interface = os.path.join(project_root, "src", "query-interface")
+    spline = os.path.join(project_root, "src", "spline")
+    utility = os.path.join(project_root, "lib", "EmbedDB-Utility")
+    output_directory = os.path.join(project_root, "lib", "Distribution")
+    # create standard embedDB amalgamation
+    amalgamate(
+        [embed_db, query_interface, spline, utility],
+        aud_stand,
+        "embedDB",
+        False,
+        output_directory,
+    )
+
+
+if __name__ == "__main__":
+    main()
-- 
2.43.0


From 30d246277e2517b3186bf73391c7da2543974c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 39/76] fix: amalgamate sources without a header and headers
 without a source

---
 amalgamation/amalgamation.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/amalgamation/amalgamation.py b/amalgamation/amalgamation.py
index 54f145d..30d556d 100644
--- a/amalgamation/amalgamation.py
+++ b/amalgamation/amalgamation.py
@@ -668,7 +668,15 @@ def amalgamate(
         sorted_h, isCpp
     )
 
-    sorted_graph_c_files = [item.replace(".h", ".c") for item in sorted_graph]
+    # sources follow the order of their headers, sources without a header come last
+    source_names = sorted(set(file.file_name for file in source_file_nodes))
+    sorted_graph_c_files = [os.path.splitext(item)[0] + ".c" for item in sorted_graph]
+    sorted_graph_c_files = [
+        item for item in sorted_graph_c_files if item in source_names
+    ]
+    sorted_graph_c_files += [
+        item for item in source_names if item not in sorted_graph_c_files
+    ]
     sorted_c = order_file_nodes_by_sorted_filenames(
         source_file_nodes, sorted_graph_c_files
     )
-- 
2.43.0


From 35512ba78ac029fb4c778b487717912c8234f58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 40/76] fix: the amalgamated source includes the header saved
 with it

---
 amalgamation/amalgamation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amalgamation/amalgamation.py b/amalgamation/amalgamation.py
index 30d556d..c1a4d75 100644
--- a/amalgamation/amalgamation.py
+++ b/amalgamation/amalgamation.py
@@ -688,7 +688,7 @@ def amalgamate(
     if split_header_files:
         save_file(header + amalg_h, file_name, "h", save_directory)
         save_file(
-            '#include "./embedDB.h"\n' + header + amalg_c,
+            '#include "./' + file_name + '.h"\n' + header + amalg_c,
             file_name,
             "cpp" if isCpp else "c",
             save_directory,
-- 
2.43.0


From cccfeda7ef134c8dd0303e67ec4ae90f90651b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 41/76] fix: recognise every spelling of an include directive
 and nothing else

---
 amalgamation/amalgamation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amalgamation/amalgamation.py b/amalgamation/amalgamation.py
index c1a4d75..e95d30e 100644
--- a/amalgamation/amalgamation.py
+++ b/amalgamation/amalgamation.py
@@ -9,7 +9,7 @@ GLOBAL VARIABLES: DO NOT EDIT
 """
 
 # REGEX
-REGEX_INCLUDE = r'\s*#include ((<[^>]+>)|("[^"]+"))'  # https://stackoverflow.com/questions/1420017/regular-expression-to-match-c-include-file
+REGEX_INCLUDE = r'(?m)^\s*#[ \t]*include[ \t]*((<[^>\n]+>)|("[^"\n]+"))'  # https://stackoverflow.com/questions/1420017/regular-expression-to-match-c-include-file
 REGEX_COMMENTS = r"//.*?\n|/\*.*?\*/"
 
 # standard libraries
-- 
2.43.0


From 4e3807dcb87954c8bd3b4f6be8137ef12a42e8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 42/76] fix: keep C++ sources in the amalgamation

---
 amalgamation/amalgamation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amalgamation/amalgamation.py b/amalgamation/amalgamation.py
index e95d30e..303a8c7 100644
--- a/amalgamation/amalgamation.py
+++ b/amalgamation/amalgamation.py
@@ -682,7 +682,9 @@ def amalgamate(
     )
     amalg_c = create_amalgamation(sorted_c, isCpp)
     if isCpp:
-        amalg_cpp = create_amalgamation(cpp_files_nodes, isCpp)
+        cpp_names = sorted(set(file.file_name for file in cpp_files_nodes))
+        sorted_cpp = order_file_nodes_by_sorted_filenames(cpp_files_nodes, cpp_names)
+        amalg_c += create_amalgamation(sorted_cpp, isCpp)
 
     # save
     if split_header_files:
-- 
2.43.0


From 0667d42570dd8bc773a1aa669d17ed09513842e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 43/76] fix: amalgamate directories with glob characters in
 their path

---
 amalgamation/amalgamation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amalgamation/amalgamation.py b/amalgamation/amalgamation.py
index 303a8c7..231bb62 100644
--- a/amalgamation/amalgamation.py
+++ b/amalgamation/amalgamation.py
@@ -197,7 +197,7 @@ def get_all_files_of_type(directory, file_extension):
 
     Note: The function returns a relative path to each file from the current working directory.
     """
-    search_pattern = os.path.join(directory, "**", f"*.{file_extension}")
+    search_pattern = os.path.join(glob.escape(directory), "**", f"*.{file_extension}")
     files = glob.glob(search_pattern, recursive=True)
     return files
 
-- 
2.43.0


From 03c72a2f209e2d6b2d05dfd173bba9711302adff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 44/76] fix: reject record, header, index page and erase sizes
 that do not fit

---
 lib/Distribution/embedDB.c | 32 ++++++++++++++++++++++++++++++++
 src/embedDB/embedDB.c      | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index be54c96..9d4314b 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -650,6 +650,20 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    if (state->keySize < 1 || state->dataSize < 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The key needs at least one byte and the size of the data can not be negative.\n");
+#endif
+        return -1;
+    }
+
+    if (state->eraseSizeInPages < 1) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The erase size must be at least one page.\n");
+#endif
+        return -1;
+    }
+
     /* check the number of allocated pages is a multiple of the erase size */
     if (state->numDataPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
@@ -672,6 +686,24 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    /* The sizes of records and of page headers are stored in 8 bits */
+    int32_t fullRecordSize = state->keySize + state->dataSize + (EMBEDDB_USING_VDATA(state->parameters) ? 4 : 0);
+    int32_t fullHeaderSize = EMBEDDB_USING_MAX_MIN(state->parameters) ? EMBEDDB_MIN_OFFSET + state->keySize * 2 + state->dataSize * 2 : 6 + state->bitmapSize;
+    if (fullRecordSize > INT8_MAX || fullHeaderSize > INT8_MAX) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The record or the page header is too large. They can have at most %d bytes.\n", INT8_MAX);
+#endif
+        return -1;
+    }
+
+    /* An index page has to hold at least one bitmap */
+    if (EMBEDDB_USING_INDEX(state->parameters) && (state->bitmapSize < 1 || state->pageSize < EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize)) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The page size is too small to store a bitmap in the index.\n");
+#endif
+        return -1;
+    }
+
     state->recordSize = state->keySize + state->dataSize;
     if (EMBEDDB_USING_VDATA(state->parameters)) {
         if (state->varFile == NULL) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 6f82deb..b13d82f 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -164,6 +164,20 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    if (state->keySize < 1 || state->dataSize < 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The key needs at least one byte and the size of the data can not be negative.\n");
+#endif
+        return -1;
+    }
+
+    if (state->eraseSizeInPages < 1) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The erase size must be at least one page.\n");
+#endif
+        return -1;
+    }
+
     /* check the number of allocated pages is a multiple of the erase size */
     if (state->numDataPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
@@ -186,6 +200,24 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    /* The sizes of records and of page headers are stored in 8 bits */
+    int32_t fullRecordSize = state->keySize + state->dataSize + (EMBEDDB_USING_VDATA(state->parameters) ? 4 : 0);
+    int32_t fullHeaderSize = EMBEDDB_USING_MAX_MIN(state->parameters) ? EMBEDDB_MIN_OFFSET + state->keySize * 2 + state->dataSize * 2 : 6 + state->bitmapSize;
+    if (fullRecordSize > INT8_MAX || fullHeaderSize > INT8_MAX) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The record or the page header is too large. They can have at most %d bytes.\n", INT8_MAX);
+#endif
+        return -1;
+    }
+
+    /* An index page has to hold at least one bitmap */
+    if (EMBEDDB_USING_INDEX(state->parameters) && (state->bitmapSize < 1 || state->pageSize < EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize)) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The page size is too small to store a bitmap in the index.\n");
+#endif
+        return -1;
+    }
+
     state->recordSize = state->keySize + state->dataSize;
     if (EMBEDDB_USING_VDATA(state->parameters)) {
         if (state->varFile == NULL) {
-- 
2.43.0


From ca08cfe0af9113740c4cea1bc597b5b9f4443007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 45/76] fix: report storage flushes that fail

---
 lib/Distribution/embedDB.c | 10 ++++------
 src/embedDB/embedDB.c      | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 9d4314b..055c45e 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2417,8 +2417,7 @@ int8_t embedDBFlushVar(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->varFile);
-    return 0;
+    return state->fileInterface->flush(state->varFile) ? 0 : -1;
 }
 
 /**
@@ -2456,11 +2455,10 @@ int8_t embedDBFlush(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->dataFile);
+    int8_t result = state->fileInterface->flush(state->dataFile) ? 0 : -1;
 
     indexPage(state, pageNum);
 
-    int8_t result = 0;
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
         count_t idxcount = EMBEDDB_GET_COUNT(buf);
@@ -2478,8 +2476,8 @@ int8_t embedDBFlush(embedDBState *state) {
 #endif
             /* The data page was written, so its records must not stay in the buffer */
             result = -1;
-        } else {
-            state->fileInterface->flush(state->indexFile);
+        } else if (!state->fileInterface->flush(state->indexFile)) {
+            result = -1;
         }
 
         /* Reinitialize buffer */
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index b13d82f..e326462 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1930,8 +1930,7 @@ int8_t embedDBFlushVar(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->varFile);
-    return 0;
+    return state->fileInterface->flush(state->varFile) ? 0 : -1;
 }
 
 /**
@@ -1969,11 +1968,10 @@ int8_t embedDBFlush(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->dataFile);
+    int8_t result = state->fileInterface->flush(state->dataFile) ? 0 : -1;
 
     indexPage(state, pageNum);
 
-    int8_t result = 0;
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
         count_t idxcount = EMBEDDB_GET_COUNT(buf);
@@ -1991,8 +1989,8 @@ int8_t embedDBFlush(embedDBState *state) {
 #endif
             /* The data page was written, so its records must not stay in the buffer */
             result = -1;
-        } else {
-            state->fileInterface->flush(state->indexFile);
+        } else if (!state->fileInterface->flush(state->indexFile)) {
+            result = -1;
         }
 
         /* Reinitialize buffer */
-- 
2.43.0


From ab2563c2a6f9b0fd7a8b61d59bb56d67c1488181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 46/76] fix: keep the CRLF line endings of the amalgamation
 script

---
 amalgamation/amalgamation.py | 1452 +++++++++++++++++-----------------
 1 file changed, 726 insertions(+), 726 deletions(-)

diff --git a/amalgamation/amalgamation.py b/amalgamation/amalgamation.py
index 231bb62..9fa2875 100644
--- a/amalgamation/amalgamation.py
+++ b/amalgamation/amalgamation.py
@@ -1,726 +1,726 @@
-from collections import deque
-import glob
-import os
-import re
-import sys
-
-"""
-GLOBAL VARIABLES: DO NOT EDIT
-"""
-
-# REGEX
-REGEX_INCLUDE = r'(?m)^\s*#[ \t]*include[ \t]*((<[^>\n]+>)|("[^"\n]+"))'  # https://stackoverflow.com/questions/1420017/regular-expression-to-match-c-include-file
-REGEX_COMMENTS = r"//.*?\n|/\*.*?\*/"
-
-# standard libraries
-c_stand = {
-    "#include <assert.h>",
-    "#include <complex.h>",
-    "#include <ctype.h>",
-    "#include <errno.h>",
-    "#include <fenv.h>",
-    "#include <float.h>",
-    "#include <inttypes.h>",
-    "#include <iso646.h>",
-    "#include <limits.h>",
-    "#include <locale.h>",
-    "#include <math.h>",
-    "#include <setjmp.h>",
-    "#include <signal.h>",
-    "#include <stdalign.h>",
-    "#include <stdarg.h>",
-    "#include <stdatomic.h>",
-    "#include <stdbool.h>",
-    "#include <stddef.h>",
-    "#include <stdint.h>",
-    "#include <stdio.h>",
-    "#include <stdlib.h>",
-    "#include <stdnoreturn.h>",
-    "#include <string.h>",
-    "#include <tgmath.h>",
-    "#include <threads.h>",
-    "#include <time.h>",
-    "#include <uchar.h>",
-    "#include <wchar.h>",
-    "#include <wctype.h>",
-}
-
-aud_stand = {
-    "#include <assert.h>",
-    "#include <complex.h>",
-    "#include <ctype.h>",
-    "#include <errno.h>",
-    "#include <fenv.h>",
-    "#include <float.h>",
-    "#include <inttypes.h>",
-    "#include <iso646.h>",
-    "#include <limits.h>",
-    "#include <locale.h>",
-    "#include <math.h>",
-    "#include <setjmp.h>",
-    "#include <signal.h>",
-    "#include <stdalign.h>",
-    "#include <stdarg.h>",
-    "#include <stdatomic.h>",
-    "#include <stdbool.h>",
-    "#include <stddef.h>",
-    "#include <stdint.h>",
-    "#include <stdio.h>",
-    "#include <stdlib.h>",
-    "#include <stdnoreturn.h>",
-    "#include <string.h>",
-    "#include <tgmath.h>",
-    "#include <threads.h>",
-    "#include <time.h>",
-    "#include <uchar.h>",
-    "#include <wchar.h>",
-    "#include <wctype.h>",
-    # here down is arduino specific...
-    "#include <Arduino.h>",
-    "#include <SPI.h>",
-    "#include <SdFat.h>",
-}
-
-header = """
-/******************************************************************************/
-/**
- * @file        EmbedDB-Amalgamation
- * @author      EmbedDB Team (See Authors.md)
- * @brief       Source code amalgamated into one file for easy distribution
- * @copyright   Copyright 2024
- *              EmbedDB Team
- * @par Redistribution and use in source and binary forms, with or without
- *  modification, are permitted provided that the following conditions are met:
- *
- * @par 1.Redistributions of source code must retain the above copyright notice,
- *  this list of conditions and the following disclaimer.
- *
- * @par 2.Redistributions in binary form must reproduce the above copyright notice,
- *  this list of conditions and the following disclaimer in the documentation
- *  and/or other materials provided with the distribution.
- *
- * @par 3.Neither the name of the copyright holder nor the names of its contributors
- *  may be used to endorse or promote products derived from this software without
- *  specific prior written permission.
- *
- * @par THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS IS"
- *  AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE
- *  IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE
- *  ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT HOLDER OR CONTRIBUTORS BE
- *  LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL, EXEMPLARY, OR
- *  CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF
- *  SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS
- *  INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN
- *  CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE)
- *  ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
- *  POSSIBILITY OF SUCH DAMAGE.
- */
-/******************************************************************************/  
-"""
-
-"""
-FILE PORTION
-"""
-
-
-def read_file(directory):
-    """
-    Reads the contents of a file and returns it as a string.
-
-    This function attempts to open a file in read-only mode and read its entire contents into a single string, which is then returned. If the function encounters an error while trying to open or read the file (such as the file not existing, lacking the necessary permissions, or the directory not being a valid file path), it will catch the exception, print an error message, and the function will return None.
-
-    :param directory: The path to the file that needs to be read. This should be a string representing a valid file path.
-
-    :return: The contents of the file as a string if the file is successfully read. Returns None if an error occurs during file reading.
-
-    :raises Exception: Prints an error message with the exception detail but does not raise it further. The function handles all exceptions internally and does not propagate them.
-    """
-    try:
-        with open(directory, "r") as file:
-            contents = file.read()
-        return contents
-    except Exception as e:
-        sys.stderr.write(f"An error occurred opening the file: {e}\n")
-        sys.exit(1)
-
-
-def save_file(source, file_name, extension, directory=None):
-    """
-    Writes the provided source content to a file with the specified file name and extension in the specified directory or a default directory if none is specified.
-
-    This function creates a new file or overwrites an existing file in the specified directory (or the default directory if none is provided) with the given file name and extension. It writes the source content to this file.
-    The function expects the extension to be provided without a preceding dot (e.g., "txt" instead of ".txt").
-    The directory should be provided as a path, which could be absolute or relative. If the directory is not provided, the file will be saved in the current working directory.
-    If an error occurs during file writing (such as permission issues, an invalid file name, or issues creating the directory), the function will catch and print the exception.
-
-    :param source: The content to be written to the file. This should be a string.
-    :param file_name: The name of the file without the extension. This should be a string.
-    :param extension: The extension of the file without a preceding dot. This function expects values like 'txt' for text files, 'py' for Python files, etc.
-    :param directory: The path to the directory where the file will be saved. If None, the file will be saved in the current working directory.
-
-    :return: None. The function does not return a value but prints an error message if an exception occurs.
-
-    :raises Exception: Catches any exceptions that occur during file writing and prints them. The function does not re-raise the exceptions.
-    """
-    if directory is None:
-        directory = (
-            os.getcwd()
-        )  # Use current working directory if no directory is provided
-
-    if not os.path.exists(directory):
-        try:
-            os.makedirs(directory)
-        except OSError as e:
-            sys.stderr.write(f"An error occurred creating the directory: {e}\n")
-            sys.exit(1)
-
-    file_path = os.path.join(directory, file_name + "." + extension)
-    try:
-        with open(file_path, "w") as file:
-            file.write(source)
-    except Exception as e:
-        sys.stderr.write(f"An error occurred saving the file: {e}\n")
-        sys.exit(1)
-
-
-def get_all_files_of_type(directory, file_extension):
-    """
-    Searches for and returns a list of all files with a specific extension within a specified directory and its subdirectories.
-
-    This function utilizes the `glob` module to search for files. It constructs a search pattern using the provided directory and file extension, then performs a recursive search to find all matching files.
-    If the directory does not exist or there are no files matching the given extension, the function returns an empty list.
-
-    :param directory: The base directory from which the search should start. This should be a string representing a valid directory path.
-    :param file_extension: The file extension to search for. This should be provided without a preceding dot (e.g., "txt" for text files).
-
-    :return: A list of strings, where each string is the path to a file that matches the specified extension. If no files are found or the directory does not exist, an empty list is returned.
-
-    Note: The function returns a relative path to each file from the current working directory.
-    """
-    search_pattern = os.path.join(glob.escape(directory), "**", f"*.{file_extension}")
-    files = glob.glob(search_pattern, recursive=True)
-    return files
-
-
-"""
-CLEANING PORTION
-"""
-
-
-def retrieve_pattern_from_source(source, pattern):
-    """
-    Extracts and returns all unique #include statements from a given source code string using a regular expression.
-
-    The function employs a regular expression to identify all occurrences of #include statements in the provided source code.
-    It then formats these findings and returns them as a set, ensuring each include statement is unique in the result.
-    The regular expression used is designed to be robust and has been adapted from a solution on StackOverflow.
-
-    :param source: The source code string from which #include statements are to be extracted.
-
-    :return: A set of strings, each representing a unique #include statement found in the source code. If no #include statements are found, an empty set is returned.
-
-    """
-    result = re.findall(pattern, source)
-    return set([f"#include {match[0]}" for match in result])
-
-
-def remove_pattern_from_source(source, pattern):
-    """
-    Removes all #include statements from a C or C++ source file content.
-
-    This function uses a regular expression to find and replace all occurrences of #include statements in the provided source code string with a space, effectively removing them.
-    The function is intended to be used with source code from .c or .h files.
-
-    :param source: The source code string from which #include statements are to be removed. This should be the content of a .c or .h file as a string.
-
-    :return: A string representing the source code with all #include statements removed. If no #include statements are found, the original source string is returned unchanged.
-    """
-
-    return re.sub(pattern, " ", source)
-
-
-def check_against_standard_library(c_stand, incoming_lib, amalg_c_stand_lib):
-    """
-    Validates a set of C library headers against the Standard C Library headers and updates a set with the valid standard libraries.
-
-    This function reads a predefined list of Standard C Library headers from a file, compares the incoming library headers against this list, and determines which of the incoming headers are part of the Standard C Library.
-    It updates the provided set with these valid standard libraries. The headers that are not part of the standard library are returned as a set.
-
-    :param incoming_lib: A set of strings representing the library headers to be checked against the standard C library.
-    :param amalg_c_stand_lib: A set that is updated with the headers from incoming_lib that are part of the standard C library.
-
-    :return: A set of strings representing the headers from incoming_lib that are not part of the standard C library. If all incoming headers are standard, an empty set is returned.
-    """
-
-    not_standard_lib = incoming_lib.difference(c_stand)
-    required_standard_lib = incoming_lib - not_standard_lib
-
-    amalg_c_stand_lib.update(required_standard_lib)
-
-    # return the difference between the two sets
-    return not_standard_lib
-
-
-def format_external_lib(incoming_lib):
-    """
-    Transforms include statements with relative paths into just the file names.
-
-    This function takes a set of include statements that may contain relative paths (e.g., #include "../src/EmbedDB.h") and extracts just the file names (e.g., "EmbedDB.h").
-    It returns a new set containing these file names, ensuring that each name is unique within the set.
-
-    :param incoming_lib: A set of strings, each representing an include statement possibly containing a relative path.
-
-    :return: A set of strings where each string is a file name extracted from the include statements. If the incoming set is empty, the function returns an empty set.
-
-    Note: The function assumes that the include statements are formatted with double quotes around the paths (e.g., #include "path/to/file").
-    It does not handle angle-bracketed include statements (e.g., #include <file>), as those are assumbed to be included from c-standard libraries
-    """
-    temp = set()
-
-    # extract each dependency from incoming_lib and add it to the set
-
-    for lib in incoming_lib:
-        path = lib.split('"')[1]
-        file = os.path.basename(path)
-        temp.add(file)
-
-    return temp
-
-
-""" 
-Dealing with FileNode
-"""
-
-
-def retrieve_source_set(source_dir, file_type, c_lib=c_stand, ignore_empty=False):
-    """
-    Generates a set of FileNode objects for each file of a specified type in a source directory and its subdirectories.
-
-    This function scans a given directory and its subdirectories for files with a specified extension. It creates a FileNode object for each file found and adds it to a set,
-    ensuring that each file is represented uniquely.
-
-    :param source_dir: The path to the directory containing the source files. This function will also search all subdirectories. Can take either a string or a list.
-    :param file_type: The file extension of the files to be processed (e.g., 'h' for C header files or 'c' for C source files).
-
-    :returns: A set of FileNode objects, each representing a unique file of the specified type found in the source directory and its subdirectories.
-
-    Note: The FileNode class should be defined elsewhere in the code, and it should have a constructor that accepts a file path as a parameter.
-    """
-
-    if isinstance(source_dir, str):
-        source_dir = [source_dir]
-
-    file_set = set()
-    dirs = []  # list of strings
-
-    for source in source_dir:
-        files = get_all_files_of_type(source, file_type)
-        dirs.extend(files)
-
-    # alphabeitcalize for deterministic results
-    dirs = sorted(dirs)
-
-    if dirs:
-        for dir in dirs:
-            # create a new object for each file
-            file = FileNode(dir, c_lib)
-            # append to the set
-            file_set.add(file)
-        return file_set
-    else:
-        if ignore_empty:
-            return []
-        else:
-            sys.stderr.write(f"There was an issue opening files, no files found\n")
-            sys.exit(1)
-
-
-def combine_c_standard_lib(array_of_sets):
-    """
-    Aggregates C standard library dependencies from multiple FileNode objects into a single set.
-
-    This function iterates over an array of sets, where each set contains FileNode objects.
-    It extracts the C standard library dependencies (c_stand_dep) from each FileNode and combines them into a master set.
-    This master set represents all unique C standard library dependencies required by the amalgamated source file.
-
-    :param array_of_sets: An array (or list) of sets, where each set contains FileNode objects. Each FileNode object should have a 'c_stand_dep' attribute,
-    which is a set of its C standard library dependencies.
-
-    :return: A set containing all unique C standard library dependencies from the provided FileNode objects. If no dependencies are found, an empty set is returned.
-
-    Note: This function assumes that each FileNode object in the sets has a 'c_stand_dep' attribute containing a set of strings, each representing a C standard library dependency.
-    """
-    master_dep = set()
-
-    for item in array_of_sets:
-        for file in item:
-            dep = file.c_stand_dep
-            master_dep.update(dep)
-
-    return master_dep
-
-
-"""
-Directed Graph Portion 
-"""
-
-
-def create_directed_graph(set_of_FileNodes):
-    """
-    Constructs a directed graph from a set of FileNode objects.
-
-    This function iterates through a set of FileNode objects, using each FileNode 'file_name' attribute as a node in the graph.
-    The 'header_dep' attribute of each FileNode, which should be a set of strings representing the file names of dependencies, is used to create edges in the graph.
-    Each node in the resulting graph points to its dependencies, establishing a directed relationship.
-
-    :param set_of_FileNodes: A set of FileNode objects. Each FileNode should have a 'file_name' attribute representing the node's name and a 'header_dep'
-    attribute representing the edges as dependencies.
-
-    :return: A dictionary representing a directed graph. The keys are file names (nodes), and the values are sets of file names (edges) representing dependencies.
-
-    Note: This function assumes that the 'file_name' and 'header_dep' attributes of each FileNode object are properly populated and that 'header_dep'
-    contains the names of files that each file node depends on.
-    """
-    directed_graph = {}
-
-    # Each FileNode's file_name becomes value of node, edges are the dependency set each obj contains
-    for file_node in set_of_FileNodes:
-        node = file_node.file_name
-        edges = file_node.header_dep
-        directed_graph[node] = edges
-
-    return directed_graph
-
-
-def dfs(graph, node, visited, result_stack, visiting):
-    """
-    Performs a depth-first search on a graph from a specified starting node, marking visited nodes during traversal and recording the traversal order only when the last node is found to
-    return a subsection of a topological result.
-
-    This function explores as far as possible along each branch before backtracking. It's a recursive implementation that updates the 'visited' set to keep track of
-    visited nodes and appends each node to the 'result_stack' once all its descendants have been explored.
-
-    :param graph: A dictionary representing the adjacency list of the graph. Keys are node identifiers, and values are sets or lists of connected nodes.
-    :param node: The node from which to start the DFS.
-    :param visited: A set that keeps track of which nodes have been visited to avoid revisiting them.
-    :param result_stack: A list that records the order in which nodes are fully explored. Nodes are added to this stack once all their children have been visited.
-
-    :return: None. The function updates the 'visited' set and 'result_stack' list in place.
-
-    Note: The graph should be represented as an adjacency list, where each key is a node and its value is a collection of nodes to which it is connected.
-    The function modifies 'visited' and 'result_stack' in place, so it does not return any value.
-    """
-
-    # add node to visited array so we do not visit it again
-    visited.add(node)
-    visiting.append(node)
-
-    # for each node's decendant
-    for child in graph[node]:
-        # check if cylcic
-        if child in visiting:
-            sys.stderr.write(
-                f"An error occured in program depedencies, a cycle with {child} was found\n"
-            )
-            sys.exit(1)
-        # only traverse unvisited nodes
-        if child not in visited:
-            # traverse grandchildren
-            dfs(graph, child, visited, result_stack, visiting)
-
-    visiting.remove(node)
-    # once at the end of dfs, add results to the stack
-    result_stack.append(node)
-
-
-def topsort(graph):
-    """
-    Performs a topological sort on a directed graph.
-
-    This function implements a topological sort algorithm, which orders the nodes in a directed graph in a linear order, respecting the dependencies represented by the edges.
-    It uses a depth-first search (DFS) to explore the graph and a stack to determine the order of nodes.
-
-    :param graph: A dictionary representing the adjacency list of the graph. Keys are node identifiers, and values are sets or lists of connected nodes.
-
-    :return: A deque (double-ended queue) representing the nodes in topologically sorted order.
-
-    Note: The graph should not contain any cycles for a valid topological sort to be possible. If the graph contains cycles, the result will not represent a valid topological ordering.
-    TODO use Tarjans strongly connected component algorithm to detect if a graph has cycles. StackOverFlow also suggests that we can detect a cycle in our algorithm too
-    """
-    # TODO try and sort alphabeitcally by filename to make it determinsitic
-
-    visited = set()
-    result_stack = deque()  # fast stack using the collections library
-    visiting = []
-
-    # for each node in the graph
-    for node in graph.keys():
-        # if the node is not visited, search using dfs, add nodes to visited
-        if node not in visited:
-            dfs(graph, node, visited, result_stack, visiting)
-
-    return list(result_stack)
-
-
-""" 
-Creating Amalgamation
-"""
-
-
-def order_file_nodes_by_sorted_filenames(header_file_nodes, sorted_graph):
-    """
-    Reorders a collection of FileNode objects based on a sorted list of filenames.
-
-    This function creates a mapping from filenames to their corresponding FileNode objects and then uses a sorted list of filenames to arrange the FileNode objects in the same order.
-    The function assumes that each filename in the sorted list has a corresponding FileNode object in the input collection.
-
-    :param header_file_nodes: A collection (e.g., list or set) of FileNode objects to be reordered. Each FileNode should have a 'file_name' attribute.
-    :param sorted_graph: A list of filenames (strings) representing the desired order for the FileNode objects.
-    :param isCpp:
-
-    :return: A list of FileNode objects ordered according to the order of filenames in 'sorted_graph'.
-
-    Note: The function assumes that 'sorted_graph' contains all filenames corresponding to the FileNode objects in 'header_file_nodes' and that the 'file_name' attribute of each FileNode is unique within
-    'header_file_nodes'.
-    """
-
-    filename_to_filenode = {}
-
-    for FileNode in header_file_nodes:
-        name = FileNode.file_name
-        filename_to_filenode[name] = FileNode
-
-    ordered = []
-
-    for node in sorted_graph:
-        ordered.append(filename_to_filenode[node])
-
-    return ordered
-
-
-def create_amalgamation(files, isCpp):
-    amalgamation = ""
-
-    if isCpp:
-        openExtern = """
-            #ifdef __cplusplus
-            extern "C" {
-            #endif
-        """
-        closeExtern = """
-            #ifdef __cplusplus
-            }
-            #endif
-        """
-
-    for file in files:
-        if isinstance(file, FileNode):
-            filename = (
-                "/************************************************************"
-                + file.file_name
-                + "************************************************************/\n"
-            )
-            # .cpp compiler must treat .c source code to prevent name mangling etc.
-            if isCpp == True and file.file_ext == ".c":
-                amalgamation += (
-                    filename + openExtern + file.contents + closeExtern + "\n"
-                )
-            else:
-                amalgamation += filename + file.contents + "\n"
-
-        else:
-            amalgamation += file + "\n"
-
-    return amalgamation
-
-
-"""
-@TODO only open up standard-c-lib.txt once! 
-"""
-
-
-class FileNode:
-    """
-    A class to represent a file node which encapsulates file information and dependencies.
-
-    Attributes:
-        c_stand_dep (set): A class variable that stores C standard library dependencies.
-        header_dep (set): Stores header file dependencies for this specific file.
-        file_dir (str): The directory path of the file.
-        file_name (str): The name of the file.
-        contents (str): The contents of the file after processing.
-
-    Methods:
-        __init__(self, file_dir): Initializes the FileNode with directory information, reads the file,
-                                  processes its contents, and identifies dependencies.
-    """
-
-    c_stand_dep = set()
-    header_dep = set()
-    file_dir = ""
-    file_ext = ""
-    file_name = ""
-    contents = ""
-
-    def __init__(self, file_dir, c_lib):
-        """
-        Initializes the FileNode instance, reads the file, and processes its dependencies.
-
-        The initialization process involves reading the file's content, extracting its #include statements,
-        identifying local and standard library dependencies, removing include statements from the content, and
-        formatting local dependencies.
-
-        Args:
-            file_dir (str): The directory path of the file to be processed.
-
-        Steps:
-            1. Assigns the file directory and extracts the file name.
-            2. Reads the content of the file.
-            3. Retrieves all #include statements within the file content.
-            4. Identifies which of these includes are local dependencies and which are standard library dependencies.
-            5. Removes all #include statements from the file content.
-            6. Formats local dependencies to store only the file names.
-        """
-        # assign directory
-        self.file_dir = file_dir
-        # retrieve file name
-        self.file_name = os.path.basename(file_dir)
-        # retrieve file extension
-        self.file_ext = os.path.splitext(file_dir)[1]
-        # open file
-        original = read_file(file_dir)
-        # retrieve included libraries
-        includes = retrieve_pattern_from_source(original, REGEX_INCLUDE)
-        # find local dependencies
-        self.header_dep = check_against_standard_library(
-            c_lib, includes, self.c_stand_dep
-        )
-        # remove includes and assign source
-        self.contents = remove_pattern_from_source(original, REGEX_INCLUDE)
-        # format local dependencies
-        self.header_dep = format_external_lib(self.header_dep)
-
-
-def amalgamate(
-    dir, c_lib, file_name, isCpp=False, save_directory=None, split_header_files=True
-):
-    """
-    Amalgmates C source code similar to SQLite https://sqlite.org/amalgamation.html
-
-    Does this by reading in all .c and .h files in a directory, creates a FileNode object for each file which reads and saves the contents, then parses through the content to find which
-    libraries it uses, and saves two dependency lists. The first one, 'c_stand_dep', is a list containing the standard c-lib that the file relies on, which is also specified as an argument
-    to this function so useres can modify this depending on the project. The second dependency list, 'header_dep', is all the different header files inside the directory each source file relies upon.
-    A topological sort is perfomed on that dependency list to create a non-unqiue though somewhat determinsitc ordering of the file dependency. It is somewhat determinsitic because retrieve_source_set
-    returns files alphabetically sorted.
-
-    :param dir: a directory pointing to the source file you would like to amalgamate
-    :param c_lib:  set of standard c libraries that are not in your project source files. These libraries are not used in topological sorting so they will not be amaglamated.
-    May change depending on the nature of your project.
-    :param file_name: the name of the amalgamated file
-    :param isCPP: dictates whether to save the file as a .cpp file or a .c file. Does not influence if EmbedDB will read .cpp files.
-    :param save_directory: the directory you would like the amalgamation files saved too. Saves to the root directory by default.
-    :param split_header_files: An optional boolean argument that prevents the amalgamation from splitting the source files.
-
-
-    """
-
-    """
-    Create a set of FileNode objects for each file type. FileNode objects will automatically parse the file, clean, compare with the C stand-lib defined as an argument, 
-    and create a small dependency graph. Sets are used to maintain uniqueness.
-    """
-    header_file_nodes = retrieve_source_set(dir, "h", c_lib)
-    source_file_nodes = retrieve_source_set(dir, "c", c_lib)
-    if isCpp:
-        cpp_files_nodes = retrieve_source_set(dir, "cpp", c_lib, True)
-
-    """
-    Since each FileNode object contains a set of which files they rely on, combining into a global set is nec to amalgamation.
-    """
-    c_standard_dep = combine_c_standard_lib(
-        [header_file_nodes, source_file_nodes, cpp_files_nodes if isCpp else []]
-    )
-
-    """
-    Next step is iterating over the set containing the header files and creating a directed graph for all the dependencies. 
-    """
-    dir_graph = create_directed_graph(header_file_nodes)
-
-    """
-    Need to alphabetize the items before getting the sorted graph so the same output is produced if there are no actual 
-    changes in the files.
-    """
-    alphabetical_directory_graph = dict(sorted(dir_graph.items()))
-    list_graph = {
-        key: sorted(list(value)) for key, value in alphabetical_directory_graph.items()
-    }
-
-    """
-    Perform a topological sort to determine the ordering of the files
-    """
-    sorted_graph = topsort(list_graph)
-
-    """
-    The next step is taking the topological sort and basically extracting them into two files, one having all the .c code 
-    and the other having all the .h code so it's easy to include in other projects, and finally saving the files.
-    """
-    sorted_h = order_file_nodes_by_sorted_filenames(header_file_nodes, sorted_graph)
-    amalg_h = create_amalgamation(sorted(c_standard_dep), isCpp) + create_amalgamation(
-        sorted_h, isCpp
-    )
-
-    # sources follow the order of their headers, sources without a header come last
-    source_names = sorted(set(file.file_name for file in source_file_nodes))
-    sorted_graph_c_files = [os.path.splitext(item)[0] + ".c" for item in sorted_graph]
-    sorted_graph_c_files = [
-        item for item in sorted_graph_c_files if item in source_names
-    ]
-    sorted_graph_c_files += [
-        item for item in source_names if item not in sorted_graph_c_files
-    ]
-    sorted_c = order_file_nodes_by_sorted_filenames(
-        source_file_nodes, sorted_graph_c_files
-    )
-    amalg_c = create_amalgamation(sorted_c, isCpp)
-    if isCpp:
-        cpp_names = sorted(set(file.file_name for file in cpp_files_nodes))
-        sorted_cpp = order_file_nodes_by_sorted_filenames(cpp_files_nodes, cpp_names)
-        amalg_c += create_amalgamation(sorted_cpp, isCpp)
-
-    # save
-    if split_header_files:
-        save_file(header + amalg_h, file_name, "h", save_directory)
-        save_file(
-            '#include "./' + file_name + '.h"\n' + header + amalg_c,
-            file_name,
-            "cpp" if isCpp else "c",
-            save_directory,
-        )
-    else:
-        save_file(
-            header + amalg_h + "\n" + amalg_c,
-            file_name,
-            "cpp" if isCpp else "c",
-            save_directory,
-        )
-
-
-def main():
-    # Load directories
-    project_root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
-    embed_db = os.path.join(project_root, "src", "embedDB")
-    query_interface = os.path.join(project_root, "src", "query-interface")
-    spline = os.path.join(project_root, "src", "spline")
-    utility = os.path.join(project_root, "lib", "EmbedDB-Utility")
-    output_directory = os.path.join(project_root, "lib", "Distribution")
-    # create standard embedDB amalgamation
-    amalgamate(
-        [embed_db, query_interface, spline, utility],
-        aud_stand,
-        "embedDB",
-        False,
-        output_directory,
-    )
-
-
-if __name__ == "__main__":
-    main()
+from collections import deque
+import glob
+import os
+import re
+import sys
+
+"""
+GLOBAL VARIABLES: DO NOT EDIT
+"""
+
+# REGEX
+REGEX_INCLUDE = r'(?m)^\s*#[ \t]*include[ \t]*((<[^>\n]+>)|("[^"\n]+"))'  # https://stackoverflow.com/questions/1420017/regular-expression-to-match-c-include-file
+REGEX_COMMENTS = r"//.*?\n|/\*.*?\*/"
+
+# standard libraries
+c_stand = {
+    "#include <assert.h>",
+    "#include <complex.h>",
+    "#include <ctype.h>",
+    "#include <errno.h>",
+    "#include <fenv.h>",
+    "#include <float.h>",
+    "#include <inttypes.h>",
+    "#include <iso646.h>",
+    "#include <limits.h>",
+    "#include <locale.h>",
+    "#include <math.h>",
+    "#include <setjmp.h>",
+    "#include <signal.h>",
+    "#include <stdalign.h>",
+    "#include <stdarg.h>",
+    "#include <stdatomic.h>",
+    "#include <stdbool.h>",
+    "#include <stddef.h>",
+    "#include <stdint.h>",
+    "#include <stdio.h>",
+    "#include <stdlib.h>",
+    "#include <stdnoreturn.h>",
+    "#include <string.h>",
+    "#include <tgmath.h>",
+    "#include <threads.h>",
+    "#include <time.h>",
+    "#include <uchar.h>",
+    "#include <wchar.h>",
+    "#include <wctype.h>",
+}
+
+aud_stand = {
+    "#include <assert.h>",
+    "#include <complex.h>",
+    "#include <ctype.h>",
+    "#include <errno.h>",
+    "#include <fenv.h>",
+    "#include <float.h>",
+    "#include <inttypes.h>",
+    "#include <iso646.h>",
+    "#include <limits.h>",
+    "#include <locale.h>",
+    "#include <math.h>",
+    "#include <setjmp.h>",
+    "#include <signal.h>",
+    "#include <stdalign.h>",
+    "#include <stdarg.h>",
+    "#include <stdatomic.h>",
+    "#include <stdbool.h>",
+    "#include <stddef.h>",
+    "#include <stdint.h>",
+    "#include <stdio.h>",
+    "#include <stdlib.h>",
+    "#include <stdnoreturn.h>",
+    "#include <string.h>",
+    "#include <tgmath.h>",
+    "#include <threads.h>",
+    "#include <time.h>",
+    "#include <uchar.h>",
+    "#include <wchar.h>",
+    "#include <wctype.h>",
+    # here down is arduino specific...
+    "#include <Arduino.h>",
+    "#include <SPI.h>",
+    "#include <SdFat.h>",
+}
+
+header = """
+/******************************************************************************/
+/**
+ * @file        EmbedDB-Amalgamation
+ * @author      EmbedDB Team (See Authors.md)
+ * @brief       Source code amalgamated into one file for easy distribution
+ * @copyright   Copyright 2024
+ *              EmbedDB Team
+ * @par Redistribution and use in source and binary forms, with or without
+ *  modification, are permitted provided that the following conditions are met:
+ *
+ * @par 1.Redistributions of source code must retain the above copyright notice,
+ *  this list of conditions and the following disclaimer.
+ *
+ * @par 2.Redistributions in binary form must reproduce the above copyright notice,
+ *  this list of conditions and the following disclaimer in the documentation
+ *  and/or other materials provided with the distribution.
+ *
+ * @par 3.Neither the name of the copyright holder nor the names of its contributors
+ *  may be used to endorse or promote products derived from this software without
+ *  specific prior written permission.
+ *
+ * @par THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS IS"
+ *  AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE
+ *  IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE
+ *  ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT HOLDER OR CONTRIBUTORS BE
+ *  LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL, EXEMPLARY, OR
+ *  CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF
+ *  SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS
+ *  INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN
+ *  CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE)
+ *  ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
+ *  POSSIBILITY OF SUCH DAMAGE.
+ */
+/******************************************************************************/  
+"""
+
+"""
+FILE PORTION
+"""
+
+
+def read_file(directory):
+    """
+    Reads the contents of a file and returns it as a string.
+
+    This function attempts to open a file in read-only mode and read its entire contents into a single string, which is then returned. If the function encounters an error while trying to open or read the file (such as the file not existing, lacking the necessary permissions, or the directory not being a valid file path), it will catch the exception, print an error message, and the function will return None.
+
+    :param directory: The path to the file that needs to be read. This should be a string representing a valid file path.
+
+    :return: The contents of the file as a string if the file is successfully read. Returns None if an error occurs during file reading.
+
+    :raises Exception: Prints an error message with the exception detail but does not raise it further. The function handles all exceptions internally and does not propagate them.
+    """
+    try:
+        with open(directory, "r") as file:
+            contents = file.read()
+        return contents
+    except Exception as e:
+        sys.stderr.write(f"An error occurred opening the file: {e}\n")
+        sys.exit(1)
+
+
+def save_file(source, file_name, extension, directory=None):
+    """
+    Writes the provided source content to a file with the specified file name and extension in the specified directory or a default directory if none is specified.
+
+    This function creates a new file or overwrites an existing file in the specified directory (or the default directory if none is provided) with the given file name and extension. It writes the source content to this file.
+    The function expects the extension to be provided without a preceding dot (e.g., "txt" instead of ".txt").
+    The directory should be provided as a path, which could be absolute or relative. If the directory is not provided, the file will be saved in the current working directory.
+    If an error occurs during file writing (such as permission issues, an invalid file name, or issues creating the directory), the function will catch and print the exception.
+
+    :param source: The content to be written to the file. This should be a string.
+    :param file_name: The name of the file without the extension. This should be a string.
+    :param extension: The extension of the file without a preceding dot. This function expects values like 'txt' for text files, 'py' for Python files, etc.
+    :param directory: The path to the directory where the file will be saved. If None, the file will be saved in the current working directory.
+
+    :return: None. The function does not return a value but prints an error message if an exception occurs.
+
+    :raises Exception: Catches any exceptions that occur during file writing and prints them. The function does not re-raise the exceptions.
+    """
+    if directory is None:
+        directory = (
+            os.getcwd()
+        )  # Use current working directory if no directory is provided
+
+    if not os.path.exists(directory):
+        try:
+            os.makedirs(directory)
+        except OSError as e:
+            sys.stderr.write(f"An error occurred creating the directory: {e}\n")
+            sys.exit(1)
+
+    file_path = os.path.join(directory, file_name + "." + extension)
+    try:
+        with open(file_path, "w") as file:
+            file.write(source)
+    except Exception as e:
+        sys.stderr.write(f"An error occurred saving the file: {e}\n")
+        sys.exit(1)
+
+
+def get_all_files_of_type(directory, file_extension):
+    """
+    Searches for and returns a list of all files with a specific extension within a specified directory and its subdirectories.
+
+    This function utilizes the `glob` module to search for files. It constructs a search pattern using the provided directory and file extension, then performs a recursive search to find all matching files.
+    If the directory does not exist or there are no files matching the given extension, the function returns an empty list.
+
+    :param directory: The base directory from which the search should start. This should be a string representing a valid directory path.
+    :param file_extension: The file extension to search for. This should be provided without a preceding dot (e.g., "txt" for text files).
+
+    :return: A list of strings, where each string is the path to a file that matches the specified extension. If no files are found or the directory does not exist, an empty list is returned.
+
+    Note: The function returns a relative path to each file from the current working directory.
+    """
+    search_pattern = os.path.join(glob.escape(directory), "**", f"*.{file_extension}")
+    files = glob.glob(search_pattern, recursive=True)
+    return files
+
+
+"""
+CLEANING PORTION
+"""
+
+
+def retrieve_pattern_from_source(source, pattern):
+    """
+    Extracts and returns all unique #include statements from a given source code string using a regular expression.
+
+    The function employs a regular expression to identify all occurrences of #include statements in the provided source code.
+    It then formats these findings and returns them as a set, ensuring each include statement is unique in the result.
+    The regular expression used is designed to be robust and has been adapted from a solution on StackOverflow.
+
+    :param source: The source code string from which #include statements are to be extracted.
+
+    :return: A set of strings, each representing a unique #include statement found in the source code. If no #include statements are found, an empty set is returned.
+
+    """
+    result = re.findall(pattern, source)
+    return set([f"#include {match[0]}" for match in result])
+
+
+def remove_pattern_from_source(source, pattern):
+    """
+    Removes all #include statements from a C or C++ source file content.
+
+    This function uses a regular expression to find and replace all occurrences of #include statements in the provided source code string with a space, effectively removing them.
+    The function is intended to be used with source code from .c or .h files.
+
+    :param source: The source code string from which #include statements are to be removed. This should be the content of a .c or .h file as a string.
+
+    :return: A string representing the source code with all #include statements removed. If no #include statements are found, the original source string is returned unchanged.
+    """
+
+    return re.sub(pattern, " ", source)
+
+
+def check_against_standard_library(c_stand, incoming_lib, amalg_c_stand_lib):
+    """
+    Validates a set of C library headers against the Standard C Library headers and updates a set with the valid standard libraries.
+
+    This function reads a predefined list of Standard C Library headers from a file, compares the incoming library headers against this list, and determines which of the incoming headers are part of the Standard C Library.
+    It updates the provided set with these valid standard libraries. The headers that are not part of the standard library are returned as a set.
+
+    :param incoming_lib: A set of strings representing the library headers to be checked against the standard C library.
+    :param amalg_c_stand_lib: A set that is updated with the headers from incoming_lib that are part of the standard C library.
+
+    :return: A set of strings representing the headers from incoming_lib that are not part of the standard C library. If all incoming headers are standard, an empty set is returned.
+    """
+
+    not_standard_lib = incoming_lib.difference(c_stand)
+    required_standard_lib = incoming_lib - not_standard_lib
+
+    amalg_c_stand_lib.update(required_standard_lib)
+
+    # return the difference between the two sets
+    return not_standard_lib
+
+
+def format_external_lib(incoming_lib):
+    """
+    Transforms include statements with relative paths into just the file names.
+
+    This function takes a set of include statements that may contain relative paths (e.g., #include "../src/EmbedDB.h") and extracts just the file names (e.g., "EmbedDB.h").
+    It returns a new set containing these file names, ensuring that each name is unique within the set.
+
+    :param incoming_lib: A set of strings, each representing an include statement possibly containing a relative path.
+
+    :return: A set of strings where each string is a file name extracted from the include statements. If the incoming set is empty, the function returns an empty set.
+
+    Note: The function assumes that the include statements are formatted with double quotes around the paths (e.g., #include "path/to/file").
+    It does not handle angle-bracketed include statements (e.g., #include <file>), as those are assumbed to be included from c-standard libraries
+    """
+    temp = set()
+
+    # extract each dependency from incoming_lib and add it to the set
+
+    for lib in incoming_lib:
+        path = lib.split('"')[1]
+        file = os.path.basename(path)
+        temp.add(file)
+
+    return temp
+
+
+""" 
+Dealing with FileNode
+"""
+
+
+def retrieve_source_set(source_dir, file_type, c_lib=c_stand, ignore_empty=False):
+    """
+    Generates a set of FileNode objects for each file of a specified type in a source directory and its subdirectories.
+
+    This function scans a given directory and its subdirectories for files with a specified extension. It creates a FileNode object for each file found and adds it to a set,
+    ensuring that each file is represented uniquely.
+
+    :param source_dir: The path to the directory containing the source files. This function will also search all subdirectories. Can take either a string or a list.
+    :param file_type: The file extension of the files to be processed (e.g., 'h' for C header files or 'c' for C source files).
+
+    :returns: A set of FileNode objects, each representing a unique file of the specified type found in the source directory and its subdirectories.
+
+    Note: The FileNode class should be defined elsewhere in the code, and it should have a constructor that accepts a file path as a parameter.
+    """
+
+    if isinstance(source_dir, str):
+        source_dir = [source_dir]
+
+    file_set = set()
+    dirs = []  # list of strings
+
+    for source in source_dir:
+        files = get_all_files_of_type(source, file_type)
+        dirs.extend(files)
+
+    # alphabeitcalize for deterministic results
+    dirs = sorted(dirs)
+
+    if dirs:
+        for dir in dirs:
+            # create a new object for each file
+            file = FileNode(dir, c_lib)
+            # append to the set
+            file_set.add(file)
+        return file_set
+    else:
+        if ignore_empty:
+            return []
+        else:
+            sys.stderr.write(f"There was an issue opening files, no files found\n")
+            sys.exit(1)
+
+
+def combine_c_standard_lib(array_of_sets):
+    """
+    Aggregates C standard library dependencies from multiple FileNode objects into a single set.
+
+    This function iterates over an array of sets, where each set contains FileNode objects.
+    It extracts the C standard library dependencies (c_stand_dep) from each FileNode and combines them into a master set.
+    This master set represents all unique C standard library dependencies required by the amalgamated source file.
+
+    :param array_of_sets: An array (or list) of sets, where each set contains FileNode objects. Each FileNode object should have a 'c_stand_dep' attribute,
+    which is a set of its C standard library dependencies.
+
+    :return: A set containing all unique C standard library dependencies from the provided FileNode objects. If no dependencies are found, an empty set is returned.
+
+    Note: This function assumes that each FileNode object in the sets has a 'c_stand_dep' attribute containing a set of strings, each representing a C standard library dependency.
+    """
+    master_dep = set()
+
+    for item in array_of_sets:
+        for file in item:
+            dep = file.c_stand_dep
+            master_dep.update(dep)
+
+    return master_dep
+
+
+"""
+Directed Graph Portion 
+"""
+
+
+def create_directed_graph(set_of_FileNodes):
+    """
+    Constructs a directed graph from a set of FileNode objects.
+
+    This function iterates through a set of FileNode objects, using each FileNode 'file_name' attribute as a node in the graph.
+    The 'header_dep' attribute of each FileNode, which should be a set of strings representing the file names of dependencies, is used to create edges in the graph.
+    Each node in the resulting graph points to its dependencies, establishing a directed relationship.
+
+    :param set_of_FileNodes: A set of FileNode objects. Each FileNode should have a 'file_name' attribute representing the node's name and a 'header_dep'
+    attribute representing the edges as dependencies.
+
+    :return: A dictionary representing a directed graph. The keys are file names (nodes), and the values are sets of file names (edges) representing dependencies.
+
+    Note: This function assumes that the 'file_name' and 'header_dep' attributes of each FileNode object are properly populated and that 'header_dep'
+    contains the names of files that each file node depends on.
+    """
+    directed_graph = {}
+
+    # Each FileNode's file_name becomes value of node, edges are the dependency set each obj contains
+    for file_node in set_of_FileNodes:
+        node = file_node.file_name
+        edges = file_node.header_dep
+        directed_graph[node] = edges
+
+    return directed_graph
+
+
+def dfs(graph, node, visited, result_stack, visiting):
+    """
+    Performs a depth-first search on a graph from a specified starting node, marking visited nodes during traversal and recording the traversal order only when the last node is found to
+    return a subsection of a topological result.
+
+    This function explores as far as possible along each branch before backtracking. It's a recursive implementation that updates the 'visited' set to keep track of
+    visited nodes and appends each node to the 'result_stack' once all its descendants have been explored.
+
+    :param graph: A dictionary representing the adjacency list of the graph. Keys are node identifiers, and values are sets or lists of connected nodes.
+    :param node: The node from which to start the DFS.
+    :param visited: A set that keeps track of which nodes have been visited to avoid revisiting them.
+    :param result_stack: A list that records the order in which nodes are fully explored. Nodes are added to this stack once all their children have been visited.
+
+    :return: None. The function updates the 'visited' set and 'result_stack' list in place.
+
+    Note: The graph should be represented as an adjacency list, where each key is a node and its value is a collection of nodes to which it is connected.
+    The function modifies 'visited' and 'result_stack' in place, so it does not return any value.
+    """
+
+    # add node to visited array so we do not visit it again
+    visited.add(node)
+    visiting.append(node)
+
+    # for each node's decendant
+    for child in graph[node]:
+        # check if cylcic
+        if child in visiting:
+            sys.stderr.write(
+                f"An error occured in program depedencies, a cycle with {child} was found\n"
+            )
+            sys.exit(1)
+        # only traverse unvisited nodes
+        if child not in visited:
+            # traverse grandchildren
+            dfs(graph, child, visited, result_stack, visiting)
+
+    visiting.remove(node)
+    # once at the end of dfs, add results to the stack
+    result_stack.append(node)
+
+
+def topsort(graph):
+    """
+    Performs a topological sort on a directed graph.
+
+    This function implements a topological sort algorithm, which orders the nodes in a directed graph in a linear order, respecting the dependencies represented by the edges.
+    It uses a depth-first search (DFS) to explore the graph and a stack to determine the order of nodes.
+
+    :param graph: A dictionary representing the adjacency list of the graph. Keys are node identifiers, and values are sets or lists of connected nodes.
+
+    :return: A deque (double-ended queue) representing the nodes in topologically sorted order.
+
+    Note: The graph should not contain any cycles for a valid topological sort to be possible. If the graph contains cycles, the result will not represent a valid topological ordering.
+    TODO use Tarjans strongly connected component algorithm to detect if a graph has cycles. StackOverFlow also suggests that we can detect a cycle in our algorithm too
+    """
+    # TODO try and sort alphabeitcally by filename to make it determinsitic
+
+    visited = set()
+    result_stack = deque()  # fast stack using the collections library
+    visiting = []
+
+    # for each node in the graph
+    for node in graph.keys():
+        # if the node is not visited, search using dfs, add nodes to visited
+        if node not in visited:
+            dfs(graph, node, visited, result_stack, visiting)
+
+    return list(result_stack)
+
+
+""" 
+Creating Amalgamation
+"""
+
+
+def order_file_nodes_by_sorted_filenames(header_file_nodes, sorted_graph):
+    """
+    Reorders a collection of FileNode objects based on a sorted list of filenames.
+
+    This function creates a mapping from filenames to their corresponding FileNode objects and then uses a sorted list of filenames to arrange the FileNode objects in the same order.
+    The function assumes that each filename in the sorted list has a corresponding FileNode object in the input collection.
+
+    :param header_file_nodes: A collection (e.g., list or set) of FileNode objects to be reordered. Each FileNode should have a 'file_name' attribute.
+    :param sorted_graph: A list of filenames (strings) representing the desired order for the FileNode objects.
+    :param isCpp:
+
+    :return: A list of FileNode objects ordered according to the order of filenames in 'sorted_graph'.
+
+    Note: The function assumes that 'sorted_graph' contains all filenames corresponding to the FileNode objects in 'header_file_nodes' and that the 'file_name' attribute of each FileNode is unique within
+    'header_file_nodes'.
+    """
+
+    filename_to_filenode = {}
+
+    for FileNode in header_file_nodes:
+        name = FileNode.file_name
+        filename_to_filenode[name] = FileNode
+
+    ordered = []
+
+    for node in sorted_graph:
+        ordered.append(filename_to_filenode[node])
+
+    return ordered
+
+
+def create_amalgamation(files, isCpp):
+    amalgamation = ""
+
+    if isCpp:
+        openExtern = """
+            #ifdef __cplusplus
+            extern "C" {
+            #endif
+        """
+        closeExtern = """
+            #ifdef __cplusplus
+            }
+            #endif
+        """
+
+    for file in files:
+        if isinstance(file, FileNode):
+            filename = (
+                "/************************************************************"
+                + file.file_name
+                + "************************************************************/\n"
+            )
+            # .cpp compiler must treat .c source code to prevent name mangling etc.
+            if isCpp == True and file.file_ext == ".c":
+                amalgamation += (
+                    filename + openExtern + file.contents + closeExtern + "\n"
+                )
+            else:
+                amalgamation += filename + file.contents + "\n"
+
+        else:
+            amalgamation += file + "\n"
+
+    return amalgamation
+
+
+"""
+@TODO only open up standard-c-lib.txt once! 
+"""
+
+
+class FileNode:
+    """
+    A class to represent a file node which encapsulates file information and dependencies.
+
+    Attributes:
+        c_stand_dep (set): A class variable that stores C standard library dependencies.
+        header_dep (set): Stores header file dependencies for this specific file.
+        file_dir (str): The directory path of the file.
+        file_name (str): The name of the file.
+        contents (str): The contents of the file after processing.
+
+    Methods:
+        __init__(self, file_dir): Initializes the FileNode with directory information, reads the file,
+                                  processes its contents, and identifies dependencies.
+    """
+
+    c_stand_dep = set()
+    header_dep = set()
+    file_dir = ""
+    file_ext = ""
+    file_name = ""
+    contents = ""
+
+    def __init__(self, file_dir, c_lib):
+        """
+        Initializes the FileNode instance, reads the file, and processes its dependencies.
+
+        The initialization process involves reading the file's content, extracting its #include statements,
+        identifying local and standard library dependencies, removing include statements from the content, and
+        formatting local dependencies.
+
+        Args:
+            file_dir (str): The directory path of the file to be processed.
+
+        Steps:
+            1. Assigns the file directory and extracts the file name.
+            2. Reads the content of the file.
+            3. Retrieves all #include statements within the file content.
+            4. Identifies which of these includes are local dependencies and which are standard library dependencies.
+            5. Removes all #include statements from the file content.
+            6. Formats local dependencies to store only the file names.
+        """
+        # assign directory
+        self.file_dir = file_dir
+        # retrieve file name
+        self.file_name = os.path.basename(file_dir)
+        # retrieve file extension
+        self.file_ext = os.path.splitext(file_dir)[1]
+        # open file
+        original = read_file(file_dir)
+        # retrieve included libraries
+        includes = retrieve_pattern_from_source(original, REGEX_INCLUDE)
+        # find local dependencies
+        self.header_dep = check_against_standard_library(
+            c_lib, includes, self.c_stand_dep
+        )
+        # remove includes and assign source
+        self.contents = remove_pattern_from_source(original, REGEX_INCLUDE)
+        # format local dependencies
+        self.header_dep = format_external_lib(self.header_dep)
+
+
+def amalgamate(
+    dir, c_lib, file_name, isCpp=False, save_directory=None, split_header_files=True
+):
+    """
+    Amalgmates C source code similar to SQLite https://sqlite.org/amalgamation.html
+
+    Does this by reading in all .c and .h files in a directory, creates a FileNode object for each file which reads and saves the contents, then parses through the content to find which
+    libraries it uses, and saves two dependency lists. The first one, 'c_stand_dep', is a list containing the standard c-lib that the file relies on, which is also specified as an argument
+    to this function so useres can modify this depending on the project. The second dependency list, 'header_dep', is all the different header files inside the directory each source file relies upon.
+    A topological sort is perfomed on that dependency list to create a non-unqiue though somewhat determinsitc ordering of the file dependency. It is somewhat determinsitic because retrieve_source_set
+    returns files alphabetically sorted.
+
+    :param dir: a directory pointing to the source file you would like to amalgamate
+    :param c_lib:  set of standard c libraries that are not in your project source files. These libraries are not used in topological sorting so they will not be amaglamated.
+    May change depending on the nature of your project.
+    :param file_name: the name of the amalgamated file
+    :param isCPP: dictates whether to save the file as a .cpp file or a .c file. Does not influence if EmbedDB will read .cpp files.
+    :param save_directory: the directory you would like the amalgamation files saved too. Saves to the root directory by default.
+    :param split_header_files: An optional boolean argument that prevents the amalgamation from splitting the source files.
+
+
+    """
+
+    """
+    Create a set of FileNode objects for each file type. FileNode objects will automatically parse the file, clean, compare with the C stand-lib defined as an argument, 
+    and create a small dependency graph. Sets are used to maintain uniqueness.
+    """
+    header_file_nodes = retrieve_source_set(dir, "h", c_lib)
+    source_file_nodes = retrieve_source_set(dir, "c", c_lib)
+    if isCpp:
+        cpp_files_nodes = retrieve_source_set(dir, "cpp", c_lib, True)
+
+    """
+    Since each FileNode object contains a set of which files they rely on, combining into a global set is nec to amalgamation.
+    """
+    c_standard_dep = combine_c_standard_lib(
+        [header_file_nodes, source_file_nodes, cpp_files_nodes if isCpp else []]
+    )
+
+    """
+    Next step is iterating over the set containing the header files and creating a directed graph for all the dependencies. 
+    """
+    dir_graph = create_directed_graph(header_file_nodes)
+
+    """
+    Need to alphabetize the items before getting the sorted graph so the same output is produced if there are no actual 
+    changes in the files.
+    """
+    alphabetical_directory_graph = dict(sorted(dir_graph.items()))
+    list_graph = {
+        key: sorted(list(value)) for key, value in alphabetical_directory_graph.items()
+    }
+
+    """
+    Perform a topological sort to determine the ordering of the files
+    """
+    sorted_graph = topsort(list_graph)
+
+    """
+    The next step is taking the topological sort and basically extracting them into two files, one having all the .c code 
+    and the other having all the .h code so it's easy to include in other projects, and finally saving the files.
+    """
+    sorted_h = order_file_nodes_by_sorted_filenames(header_file_nodes, sorted_graph)
+    amalg_h = create_amalgamation(sorted(c_standard_dep), isCpp) + create_amalgamation(
+        sorted_h, isCpp
+    )
+
+    # sources follow the order of their headers, sources without a header come last
+    source_names = sorted(set(file.file_name for file in source_file_nodes))
+    sorted_graph_c_files = [os.path.splitext(item)[0] + ".c" for item in sorted_graph]
+    sorted_graph_c_files = [
+        item for item in sorted_graph_c_files if item in source_names
+    ]
+    sorted_graph_c_files += [
+        item for item in source_names if item not in sorted_graph_c_files
+    ]
+    sorted_c = order_file_nodes_by_sorted_filenames(
+        source_file_nodes, sorted_graph_c_files
+    )
+    amalg_c = create_amalgamation(sorted_c, isCpp)
+    if isCpp:
+        cpp_names = sorted(set(file.file_name for file in cpp_files_nodes))
+        sorted_cpp = order_file_nodes_by_sorted_filenames(cpp_files_nodes, cpp_names)
+        amalg_c += create_amalgamation(sorted_cpp, isCpp)
+
+    # save
+    if split_header_files:
+        save_file(header + amalg_h, file_name, "h", save_directory)
+        save_file(
+            '#include "./' + file_name + '.h"\n' + header + amalg_c,
+            file_name,
+            "cpp" if isCpp else "c",
+            save_directory,
+        )
+    else:
+        save_file(
+            header + amalg_h + "\n" + amalg_c,
+            file_name,
+            "cpp" if isCpp else "c",
+            save_directory,
+        )
+
+
+def main():
+    # Load directories
+    project_root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
+    embed_db = os.path.join(project_root, "src", "embedDB")
+    query_interface = os.path.join(project_root, "src", "query-interface")
+    spline = os.path.join(project_root, "src", "spline")
+    utility = os.path.join(project_root, "lib", "EmbedDB-Utility")
+    output_directory = os.path.join(project_root, "lib", "Distribution")
+    # create standard embedDB amalgamation
+    amalgamate(
+        [embed_db, query_interface, spline, utility],
+        aud_stand,
+        "embedDB",
+        False,
+        output_directory,
+    )
+
+
+if __name__ == "__main__":
+    main()
-- 
2.43.0


From 125e0487a9e57993b8fca23cb196da8cee1dd4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 47/76] fix: erase temporary pages before rewriting them with
 single-page erase blocks

---
 lib/Distribution/embedDB.c | 8 +++++---
 src/embedDB/embedDB.c      | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 055c45e..d0277f5 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2826,11 +2826,13 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         state->nextRLCPhysicalPageLocation = state->rlcPhysicalStartingPage;
     }
 
-    /* If in pageNum is second page in block, we erase the other record-level consistency block */
-    if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1) {
+    /* If in pageNum is second page in block, we erase the other record-level consistency block. With blocks of a single page, we erase the page itself */
+    if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1 || state->eraseSizeInPages == 1) {
         uint32_t eraseStartingPage = state->rlcPhysicalStartingPage;
         count_t blockSize = state->eraseSizeInPages;
-        if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {
+        if (blockSize == 1) {
+            eraseStartingPage = state->nextRLCPhysicalPageLocation;
+        } else if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {
             eraseStartingPage = (eraseStartingPage + blockSize) % state->numDataPages;
         }
         uint32_t eraseEndingPage = eraseStartingPage + blockSize;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index e326462..ba74957 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2339,11 +2339,13 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         state->nextRLCPhysicalPageLocation = state->rlcPhysicalStartingPage;
     }
 
-    /* If in pageNum is second page in block, we erase the other record-level consistency block */
-    if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1) {
+    /* If in pageNum is second page in block, we erase the other record-level consistency block. With blocks of a single page, we erase the page itself */
+    if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1 || state->eraseSizeInPages == 1) {
         uint32_t eraseStartingPage = state->rlcPhysicalStartingPage;
         count_t blockSize = state->eraseSizeInPages;
-        if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {
+        if (blockSize == 1) {
+            eraseStartingPage = state->nextRLCPhysicalPageLocation;
+        } else if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {
             eraseStartingPage = (eraseStartingPage + blockSize) % state->numDataPages;
         }
         uint32_t eraseEndingPage = eraseStartingPage + blockSize;
-- 
2.43.0


From 75467221ea34a61137d00640dfdd742aa8342fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:08 +0000
Subject: [PATCH 48/76] fix: report variable data lookups without variable data
 as errors

---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index d0277f5..7a9c9c0 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2310,7 +2310,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
 #ifdef PRINT_ERRORS
         printf("ERROR: embedDBGetVar called when not using variable data\n");
 #endif
-        return 0;
+        return -1;
     }
     void *outputBuffer = (int8_t *)state->buffer;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index ba74957..e344230 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1823,7 +1823,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
 #ifdef PRINT_ERRORS
         printf("ERROR: embedDBGetVar called when not using variable data\n");
 #endif
-        return 0;
+        return -1;
     }
     void *outputBuffer = (int8_t *)state->buffer;
 
-- 
2.43.0


From f02401fdc438ca2935a69d43eeb21c4a28cd17bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 49/76] fix: reject variable data space beyond its 32-bit
 addresses

---
 lib/Distribution/embedDB.c | 7 +++++++
 src/embedDB/embedDB.c      | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 7a9c9c0..55432f1 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -726,6 +726,13 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
+
+        if ((uint64_t)state->numVarPages * state->pageSize > UINT32_MAX) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: The variable data space is too large for the 4 byte addresses of variable data.\n");
+#endif
+            return -1;
+        }
         state->recordSize += 4;
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index e344230..4dba484 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -240,6 +240,13 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
+
+        if ((uint64_t)state->numVarPages * state->pageSize > UINT32_MAX) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: The variable data space is too large for the 4 byte addresses of variable data.\n");
+#endif
+            return -1;
+        }
         state->recordSize += 4;
     }
 
-- 
2.43.0


From 4aaf5114d75632248c3382e4e98bed83c7100aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:42 +0000
Subject: [PATCH 50/76] fix: keep the limit of deleted variable data when it
 reaches the largest key

---
 lib/Distribution/embedDB.c | 3 ++-
 src/embedDB/embedDB.c      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 55432f1..4ad13de 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1962,7 +1962,8 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         return r;
     }
 
-    if (state->minVarRecordId == UINT64_MAX) {
+    // The first variable data sets the limit, unless part of it was overwritten already
+    if (state->minVarRecordId == UINT64_MAX && state->nextVarPageId <= state->numVarPages) {
         memcpy(&state->minVarRecordId, key, state->keySize);
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 4dba484..5ff9ef8 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1475,7 +1475,8 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         return r;
     }
 
-    if (state->minVarRecordId == UINT64_MAX) {
+    // The first variable data sets the limit, unless part of it was overwritten already
+    if (state->minVarRecordId == UINT64_MAX && state->nextVarPageId <= state->numVarPages) {
         memcpy(&state->minVarRecordId, key, state->keySize);
     }
 
-- 
2.43.0


From ee9ad0a6d9a9789056179d0a2e81b1c893faba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:30 +0000
Subject: [PATCH 51/76] fix: report failed reads while the spline is rebuilt

---
 lib/Distribution/embedDB.c | 17 ++++++++++++-----
 src/embedDB/embedDB.c      | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 4ad13de..5c12693 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -543,7 +543,7 @@ int8_t embedDBInitIndexFromFile(embedDBState *state);
 int8_t embedDBInitVarData(embedDBState *state);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
-void embedDBInitSplineFromFile(embedDBState *state);
+int8_t embedDBInitSplineFromFile(embedDBState *state);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
 int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataStream **varData, id_t recordNumber);
@@ -1024,7 +1024,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     }
 
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
@@ -1200,22 +1200,29 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
         return -1;
     }
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
 }
 
-void embedDBInitSplineFromFile(embedDBState *state) {
+int8_t embedDBInitSplineFromFile(embedDBState *state) {
     id_t pageNumberToRead = state->minDataPageId;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
     id_t pagesRead = 0;
     id_t numberOfPagesToRead = state->nextDataPageId - state->minDataPageId;
     while (pagesRead < numberOfPagesToRead) {
-        readPage(state, pageNumberToRead % state->numDataPages);
+        if (readPage(state, pageNumberToRead % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+            printf("Error: Can't read page in data file that was previously read!\n");
+#endif
+            return -1;
+        }
         splineAdd(state->spl, embedDBGetMinKey(state, buffer), pageNumberToRead++);
         pagesRead++;
     }
+
+    return 0;
 }
 
 int8_t embedDBInitIndex(embedDBState *state) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 5ff9ef8..144d1be 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -57,7 +57,7 @@ int8_t embedDBInitIndexFromFile(embedDBState *state);
 int8_t embedDBInitVarData(embedDBState *state);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
-void embedDBInitSplineFromFile(embedDBState *state);
+int8_t embedDBInitSplineFromFile(embedDBState *state);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
 int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataStream **varData, id_t recordNumber);
@@ -538,7 +538,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     }
 
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
@@ -714,22 +714,29 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
         return -1;
     }
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
 }
 
-void embedDBInitSplineFromFile(embedDBState *state) {
+int8_t embedDBInitSplineFromFile(embedDBState *state) {
     id_t pageNumberToRead = state->minDataPageId;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
     id_t pagesRead = 0;
     id_t numberOfPagesToRead = state->nextDataPageId - state->minDataPageId;
     while (pagesRead < numberOfPagesToRead) {
-        readPage(state, pageNumberToRead % state->numDataPages);
+        if (readPage(state, pageNumberToRead % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+            printf("Error: Can't read page in data file that was previously read!\n");
+#endif
+            return -1;
+        }
         splineAdd(state->spl, embedDBGetMinKey(state, buffer), pageNumberToRead++);
         pagesRead++;
     }
+
+    return 0;
 }
 
 int8_t embedDBInitIndex(embedDBState *state) {
-- 
2.43.0


From 02a34a58db7d7b47e896343191a7a5b413a1f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 52/76] fix: stop recovery with an error when the oldest page
 is not found

---
 lib/Distribution/embedDB.c | 6 ++++++
 src/embedDB/embedDB.c      | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 5c12693..442f87b 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1193,6 +1193,12 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
         return -1;
     }
     memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
+    if (state->minDataPageId != newestLogicalPageIdAt(physicalPageIDOfSmallestData, maxLogicalPageId, state->numDataPages)) {
+#ifdef PRINT_ERRORS
+        printf("Error: Can't find the oldest page in data file during recovery!\n");
+#endif
+        return -1;
+    }
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1 - (2 * blockSize);
 
     /* Put largest key back into the buffer */
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 144d1be..01d89a8 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -707,6 +707,12 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
         return -1;
     }
     memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
+    if (state->minDataPageId != newestLogicalPageIdAt(physicalPageIDOfSmallestData, maxLogicalPageId, state->numDataPages)) {
+#ifdef PRINT_ERRORS
+        printf("Error: Can't find the oldest page in data file during recovery!\n");
+#endif
+        return -1;
+    }
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1 - (2 * blockSize);
 
     /* Put largest key back into the buffer */
-- 
2.43.0


From fb3469502589a77153326b04fbaf0874220304b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:27 +0000
Subject: [PATCH 53/76] fix: compare 64-bit keys at any alignment and without
 signed overflow

---
 lib/EmbedDB-Utility/embedDBUtility.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index 8f41a4f..f25ce65 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -238,7 +238,7 @@ int8_t int32Comparator(void *a, void *b) {
     int32_t i1, i2;
     memcpy(&i1, a, sizeof(int32_t));
     memcpy(&i2, b, sizeof(int32_t));
-    int32_t result = i1 - i2;
+    int32_t result = (int32_t)((uint32_t)i1 - (uint32_t)i2);
     if (result < 0)
         return -1;
     if (result > 0)
@@ -247,7 +247,10 @@ int8_t int32Comparator(void *a, void *b) {
 }
 
 int8_t int64Comparator(void *a, void *b) {
-    int64_t result = *((int64_t *)a) - *((int64_t *)b);
+    int64_t i1, i2;
+    memcpy(&i1, a, sizeof(int64_t));
+    memcpy(&i2, b, sizeof(int64_t));
+    int64_t result = (int64_t)((uint64_t)i1 - (uint64_t)i2);
     if (result < 0)
         return -1;
     if (result > 0)
-- 
2.43.0


From bef9bd20d76255ca34fb071577bd9a18f58b63c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:51 +0000
Subject: [PATCH 54/76] fix: keep key estimates out of the range of their
 integers from overflowing

---
 lib/Distribution/embedDB.c | 32 +++++++++++++-------------------
 src/embedDB/embedDB.c      | 32 +++++++++++++-------------------
 2 files changed, 26 insertions(+), 38 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 442f87b..bfd1e30 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1627,21 +1627,17 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
             // make currentKey value relative to current page
             currentKey = currentKey - minKey;
 
-            // Guard against integer underflow
-            if ((currentKey / slope) >= i) {
-                currentError = (currentKey / slope) - i;
-            } else {
-                currentError = i - (currentKey / slope);
+            // Guard against errors that do not fit an integer
+            float error = fabsf(currentKey / slope - i);
+            if (error > state->maxRecordsPerPage) {
+                return state->maxRecordsPerPage;
             }
+            currentError = error;
             if (currentError > maxError) {
                 maxError = currentError;
             }
         }
 
-        if (maxError > state->maxRecordsPerPage) {
-            return state->maxRecordsPerPage;
-        }
-
         return maxError;
     } else {
         int32_t maxError = 0, currentError;
@@ -1658,21 +1654,17 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
             // make currentKey value relative to current page
             currentKey = currentKey - minKey;
 
-            // Guard against integer underflow
-            if ((currentKey / slope) >= i) {
-                currentError = (currentKey / slope) - i;
-            } else {
-                currentError = i - (currentKey / slope);
+            // Guard against errors that do not fit an integer
+            float error = fabsf(currentKey / slope - i);
+            if (error > state->maxRecordsPerPage) {
+                return state->maxRecordsPerPage;
             }
+            currentError = error;
             if (currentError > maxError) {
                 maxError = currentError;
             }
         }
 
-        if (maxError > state->maxRecordsPerPage) {
-            return state->maxRecordsPerPage;
-        }
-
         return maxError;
     }
 }
@@ -2069,7 +2061,9 @@ int16_t embedDBEstimateKeyLocation(embedDBState *state, void *buffer, void *key)
     memcpy(&minKey, embedDBGetMinKey(state, buffer), state->keySize);
     memcpy(&thisKey, key, state->keySize);
 
-    return (thisKey - minKey) / slope;
+    // an estimate past the records of the page does not have to fit the result
+    float location = (thisKey - minKey) / slope;
+    return location < EMBEDDB_GET_COUNT(buffer) ? (int16_t)location : -1;
 }
 
 /**
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 01d89a8..b18abbf 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1140,21 +1140,17 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
             // make currentKey value relative to current page
             currentKey = currentKey - minKey;
 
-            // Guard against integer underflow
-            if ((currentKey / slope) >= i) {
-                currentError = (currentKey / slope) - i;
-            } else {
-                currentError = i - (currentKey / slope);
+            // Guard against errors that do not fit an integer
+            float error = fabsf(currentKey / slope - i);
+            if (error > state->maxRecordsPerPage) {
+                return state->maxRecordsPerPage;
             }
+            currentError = error;
             if (currentError > maxError) {
                 maxError = currentError;
             }
         }
 
-        if (maxError > state->maxRecordsPerPage) {
-            return state->maxRecordsPerPage;
-        }
-
         return maxError;
     } else {
         int32_t maxError = 0, currentError;
@@ -1171,21 +1167,17 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
             // make currentKey value relative to current page
             currentKey = currentKey - minKey;
 
-            // Guard against integer underflow
-            if ((currentKey / slope) >= i) {
-                currentError = (currentKey / slope) - i;
-            } else {
-                currentError = i - (currentKey / slope);
+            // Guard against errors that do not fit an integer
+            float error = fabsf(currentKey / slope - i);
+            if (error > state->maxRecordsPerPage) {
+                return state->maxRecordsPerPage;
             }
+            currentError = error;
             if (currentError > maxError) {
                 maxError = currentError;
             }
         }
 
-        if (maxError > state->maxRecordsPerPage) {
-            return state->maxRecordsPerPage;
-        }
-
         return maxError;
     }
 }
@@ -1582,7 +1574,9 @@ int16_t embedDBEstimateKeyLocation(embedDBState *state, void *buffer, void *key)
     memcpy(&minKey, embedDBGetMinKey(state, buffer), state->keySize);
     memcpy(&thisKey, key, state->keySize);
 
-    return (thisKey - minKey) / slope;
+    // an estimate past the records of the page does not have to fit the result
+    float location = (thisKey - minKey) / slope;
+    return location < EMBEDDB_GET_COUNT(buffer) ? (int16_t)location : -1;
 }
 
 /**
-- 
2.43.0


From fba9664cbcfa2b62ad0b9b27171db6d429a82c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:30 +0000
Subject: [PATCH 55/76] fix: add signed values without overflow

---
 lib/Distribution/embedDB.c            | 6 ++++--
 src/query-interface/advancedQueries.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index bfd1e30..1278b4f 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4258,7 +4258,8 @@ void sumAdd(embedDBAggregateFunc *aggFunc, embedDBSchema *inputSchema, const voi
         if (sign != 0) {
             memset(((int8_t *)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
-        (*(int64_t *)aggFunc->state) += val;
+        // unsigned so that a sum past 64 bits wraps around
+        (*(uint64_t *)aggFunc->state) += (uint64_t)val;
     } else {
         uint64_t val = 0;
         memcpy(&val, colPos, colSize);
@@ -4461,7 +4462,8 @@ void avgAdd(struct embedDBAggregateFunc *aggFunc, embedDBSchema *inputSchema, co
         if (sign != 0) {
             memset(((int8_t *)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
-        state->sum += val;
+        // unsigned so that a sum past 64 bits wraps around
+        state->sum = (int64_t)((uint64_t)state->sum + (uint64_t)val);
     } else {
         uint64_t val = 0;
         memcpy(&val, colPos, colSize);
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index de12536..60e3b51 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -874,7 +874,8 @@ void sumAdd(embedDBAggregateFunc* aggFunc, embedDBSchema* inputSchema, const voi
         if (sign != 0) {
             memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
-        (*(int64_t*)aggFunc->state) += val;
+        // unsigned so that a sum past 64 bits wraps around
+        (*(uint64_t*)aggFunc->state) += (uint64_t)val;
     } else {
         uint64_t val = 0;
         memcpy(&val, colPos, colSize);
@@ -1077,7 +1078,8 @@ void avgAdd(struct embedDBAggregateFunc* aggFunc, embedDBSchema* inputSchema, co
         if (sign != 0) {
             memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
-        state->sum += val;
+        // unsigned so that a sum past 64 bits wraps around
+        state->sum = (int64_t)((uint64_t)state->sum + (uint64_t)val);
     } else {
         uint64_t val = 0;
         memcpy(&val, colPos, colSize);
-- 
2.43.0


From 20e9b06a0d243a58e0c71d626a7ed5f7681cc708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 56/76] fix: compare keys without overflow in the distribution
 as well

---
 lib/Distribution/embedDB.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 1278b4f..9cbe6a8 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4795,7 +4795,7 @@ int8_t int32Comparator(void *a, void *b) {
     int32_t i1, i2;
     memcpy(&i1, a, sizeof(int32_t));
     memcpy(&i2, b, sizeof(int32_t));
-    int32_t result = i1 - i2;
+    int32_t result = (int32_t)((uint32_t)i1 - (uint32_t)i2);
     if (result < 0)
         return -1;
     if (result > 0)
@@ -4804,7 +4804,10 @@ int8_t int32Comparator(void *a, void *b) {
 }
 
 int8_t int64Comparator(void *a, void *b) {
-    int64_t result = *((int64_t *)a) - *((int64_t *)b);
+    int64_t i1, i2;
+    memcpy(&i1, a, sizeof(int64_t));
+    memcpy(&i2, b, sizeof(int64_t));
+    int64_t result = (int64_t)((uint64_t)i1 - (uint64_t)i2);
     if (result < 0)
         return -1;
     if (result > 0)
-- 
2.43.0


From a35b300f81b5c53945f035c1189d7d4807664d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:08 +0000
Subject: [PATCH 57/76] fix: look up keys on pages numbered past 2^31

---
 lib/Distribution/embedDB.c | 12 ++++++------
 src/embedDB/embedDB.c      | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 9cbe6a8..676fe06 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2125,9 +2125,9 @@ id_t embedDBSearchNode(embedDBState *state, void *buffer, void *key, int8_t rang
  * @param 	high		Uper bound for the page the record could be found on
  * @return	Return 0 if success. Non-zero value if error.
  */
-int8_t linearSearch(embedDBState *state, void *buf, void *key, int32_t pageId, int32_t low, int32_t high) {
+int8_t linearSearch(embedDBState *state, void *buf, void *key, id_t pageId, id_t low, id_t high) {
     int32_t pageError = 0;
-    int32_t physPageId;
+    id_t physPageId;
     while (1) {
         /* Move logical page number to physical page id based on location of first data page */
         physPageId = pageId % state->numDataPages;
@@ -2156,7 +2156,7 @@ int8_t linearSearch(embedDBState *state, void *buf, void *key, int32_t pageId, i
 
 int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
     uint32_t first = state->minDataPageId, last = state->nextDataPageId - 1;
-    uint32_t pageId = (first + last) / 2;
+    uint32_t pageId = first + (last - first) / 2;
     while (1) {
         /* Read page into buffer */
         if (readPage(state, pageId % state->numDataPages) != 0)
@@ -2170,11 +2170,11 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
             if (pageId == first)
                 return -1;
             last = pageId - 1;
-            pageId = (first + last) / 2;
+            pageId = first + (last - first) / 2;
         } else if (state->compareKey(key, embedDBGetMaxKey(state, buffer)) > 0) {
             /* Key is larger than largest record in block. */
             first = pageId + 1;
-            pageId = (first + last) / 2;
+            pageId = first + (last - first) / 2;
         } else {
             /* Found correct block */
             return 0;
@@ -2198,7 +2198,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
     /* if the spline returns a lowbound lower than than the smallest page we have, we can move the lowbound and location up */
     if (lowbound < state->minDataPageId) {
         lowbound = state->minDataPageId;
-        location = (lowbound + highbound) / 2;
+        location = lowbound + (highbound - lowbound) / 2;
     }
 
     // Check if the currently buffered page is the correct one
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index b18abbf..4507173 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1638,9 +1638,9 @@ id_t embedDBSearchNode(embedDBState *state, void *buffer, void *key, int8_t rang
  * @param 	high		Uper bound for the page the record could be found on
  * @return	Return 0 if success. Non-zero value if error.
  */
-int8_t linearSearch(embedDBState *state, void *buf, void *key, int32_t pageId, int32_t low, int32_t high) {
+int8_t linearSearch(embedDBState *state, void *buf, void *key, id_t pageId, id_t low, id_t high) {
     int32_t pageError = 0;
-    int32_t physPageId;
+    id_t physPageId;
     while (1) {
         /* Move logical page number to physical page id based on location of first data page */
         physPageId = pageId % state->numDataPages;
@@ -1669,7 +1669,7 @@ int8_t linearSearch(embedDBState *state, void *buf, void *key, int32_t pageId, i
 
 int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
     uint32_t first = state->minDataPageId, last = state->nextDataPageId - 1;
-    uint32_t pageId = (first + last) / 2;
+    uint32_t pageId = first + (last - first) / 2;
     while (1) {
         /* Read page into buffer */
         if (readPage(state, pageId % state->numDataPages) != 0)
@@ -1683,11 +1683,11 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
             if (pageId == first)
                 return -1;
             last = pageId - 1;
-            pageId = (first + last) / 2;
+            pageId = first + (last - first) / 2;
         } else if (state->compareKey(key, embedDBGetMaxKey(state, buffer)) > 0) {
             /* Key is larger than largest record in block. */
             first = pageId + 1;
-            pageId = (first + last) / 2;
+            pageId = first + (last - first) / 2;
         } else {
             /* Found correct block */
             return 0;
@@ -1711,7 +1711,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
     /* if the spline returns a lowbound lower than than the smallest page we have, we can move the lowbound and location up */
     if (lowbound < state->minDataPageId) {
         lowbound = state->minDataPageId;
-        location = (lowbound + highbound) / 2;
+        location = lowbound + (highbound - lowbound) / 2;
     }
 
     // Check if the currently buffered page is the correct one
-- 
2.43.0


From 3f96aaa15f88cfb74fea9f05ed1a49c2e6c24813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 58/76] fix: estimate the page of a key below the first spline
 point past page 2^31

---
 lib/Distribution/embedDB.c | 2 +-
 src/spline/spline.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 676fe06..759441e 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -432,7 +432,7 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
         uint32_t lowEstimate, highEstimate, locEstimate = 0;
         memcpy(&lowEstimate, (int8_t *)spl->firstSplinePoint + spl->keySize, sizeof(uint32_t));
         memcpy(&highEstimate, (int8_t *)smallestSplinePoint + spl->keySize, sizeof(uint32_t));
-        locEstimate = (lowEstimate + highEstimate) / 2;
+        locEstimate = lowEstimate + (highEstimate - lowEstimate) / 2;
 
         memcpy(loc, &locEstimate, sizeof(uint32_t));
         memcpy(low, &lowEstimate, sizeof(uint32_t));
diff --git a/src/spline/spline.c b/src/spline/spline.c
index 520133c..479d92e 100644
--- a/src/spline/spline.c
+++ b/src/spline/spline.c
@@ -403,7 +403,7 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
         uint32_t lowEstimate, highEstimate, locEstimate = 0;
         memcpy(&lowEstimate, (int8_t *)spl->firstSplinePoint + spl->keySize, sizeof(uint32_t));
         memcpy(&highEstimate, (int8_t *)smallestSplinePoint + spl->keySize, sizeof(uint32_t));
-        locEstimate = (lowEstimate + highEstimate) / 2;
+        locEstimate = lowEstimate + (highEstimate - lowEstimate) / 2;
 
         memcpy(loc, &locEstimate, sizeof(uint32_t));
         memcpy(low, &lowEstimate, sizeof(uint32_t));
-- 
2.43.0


From 52f155f029f707aeb80fea9b8767b4e2b540783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:09 +0000
Subject: [PATCH 59/76] fix: creating or copying a schema without memory
 returns NULL and keeps nothing

---
 lib/Distribution/embedDB.c   | 14 ++++++++++++++
 src/query-interface/schema.c | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 759441e..40fd5e4 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3279,7 +3279,20 @@ void embedDBClose(embedDBState *state) {
  */
 embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *colSignedness) {
     embedDBSchema *schema = malloc(sizeof(embedDBSchema));
+    if (schema == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: malloc failed while creating schema\n");
+#endif
+        return NULL;
+    }
     schema->columnSizes = malloc(numCols * sizeof(int8_t));
+    if (schema->columnSizes == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: malloc failed while creating schema\n");
+#endif
+        free(schema);
+        return NULL;
+    }
     schema->numCols = numCols;
     uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
@@ -3347,6 +3360,7 @@ embedDBSchema *copySchema(const embedDBSchema *schema) {
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while copying schema\n");
 #endif
+        free(copy);
         return NULL;
     }
     memcpy(copy->columnSizes, schema->columnSizes, schema->numCols * sizeof(int8_t));
diff --git a/src/query-interface/schema.c b/src/query-interface/schema.c
index 5ec5c33..783b3b3 100644
--- a/src/query-interface/schema.c
+++ b/src/query-interface/schema.c
@@ -52,7 +52,20 @@
  */
 embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* colSignedness) {
     embedDBSchema* schema = malloc(sizeof(embedDBSchema));
+    if (schema == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: malloc failed while creating schema\n");
+#endif
+        return NULL;
+    }
     schema->columnSizes = malloc(numCols * sizeof(int8_t));
+    if (schema->columnSizes == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: malloc failed while creating schema\n");
+#endif
+        free(schema);
+        return NULL;
+    }
     schema->numCols = numCols;
     uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
@@ -120,6 +133,7 @@ embedDBSchema* copySchema(const embedDBSchema* schema) {
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while copying schema\n");
 #endif
+        free(copy);
         return NULL;
     }
     memcpy(copy->columnSizes, schema->columnSizes, schema->numCols * sizeof(int8_t));
-- 
2.43.0


From 4f39ea888b408368fdcad0e840fcc9972de63d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:17 +0000
Subject: [PATCH 60/76] fix: creating operators and aggregate functions without
 memory returns NULL and keeps nothing

---
 lib/Distribution/embedDB.c            | 43 +++++++++++++++++++++++++++
 src/query-interface/advancedQueries.c | 43 +++++++++++++++++++++++++++
 2 files changed, 86 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 40fd5e4..60f649e 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3622,12 +3622,18 @@ embedDBOperator *createTableScanOperator(embedDBState *state, embedDBIterator *i
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while creating TableScan operator\n");
 #endif
+        free(op);
         return NULL;
     }
     memcpy(op->state, &state, sizeof(void *));
     memcpy((int8_t *)op->state + sizeof(void *), &it, sizeof(void *));
 
     op->schema = copySchema(baseSchema);
+    if (op->schema == NULL) {
+        free(op->state);
+        free(op);
+        return NULL;
+    }
     op->input = NULL;
     op->recordBuffer = NULL;
 
@@ -3742,6 +3748,7 @@ embedDBOperator *createProjectionOperator(embedDBOperator *input, uint8_t numCol
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while creating Projection operator\n");
 #endif
+        free(state);
         return NULL;
     }
 
@@ -3849,6 +3856,7 @@ embedDBOperator *createSelectionOperator(embedDBOperator *input, int8_t colNum,
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating Selection operator\n");
 #endif
+        free(state);
         return NULL;
     }
     op->state = state;
@@ -4034,6 +4042,7 @@ embedDBOperator *createAggregateOperator(embedDBOperator *input, int8_t (*groupf
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating aggregate operator\n");
 #endif
+        free(state);
         return NULL;
     }
 
@@ -4207,6 +4216,7 @@ embedDBOperator *createKeyJoinOperator(embedDBOperator *input1, embedDBOperator
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating join operator\n");
 #endif
+        free(op);
         return NULL;
     }
     state->input2 = input2;
@@ -4240,10 +4250,23 @@ void countCompute(embedDBAggregateFunc *aggFunc, embedDBSchema *outputSchema, vo
  */
 embedDBAggregateFunc *createCountAggregate() {
     embedDBAggregateFunc *aggFunc = malloc(sizeof(embedDBAggregateFunc));
+    if (aggFunc == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating count aggregate function\n");
+#endif
+        return NULL;
+    }
     aggFunc->reset = countReset;
     aggFunc->add = countAdd;
     aggFunc->compute = countCompute;
     aggFunc->state = malloc(sizeof(uint32_t));
+    if (aggFunc->state == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating count aggregate function\n");
+#endif
+        free(aggFunc);
+        return NULL;
+    }
     aggFunc->colSize = 4;
     return aggFunc;
 }
@@ -4292,10 +4315,23 @@ void sumCompute(embedDBAggregateFunc *aggFunc, embedDBSchema *outputSchema, void
  */
 embedDBAggregateFunc *createSumAggregate(uint8_t colNum) {
     embedDBAggregateFunc *aggFunc = malloc(sizeof(embedDBAggregateFunc));
+    if (aggFunc == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating sum aggregate function\n");
+#endif
+        return NULL;
+    }
     aggFunc->reset = sumReset;
     aggFunc->add = sumAdd;
     aggFunc->compute = sumCompute;
     aggFunc->state = malloc(sizeof(int8_t) + sizeof(int64_t));
+    if (aggFunc->state == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating sum aggregate function\n");
+#endif
+        free(aggFunc);
+        return NULL;
+    }
     *((uint8_t *)aggFunc->state + sizeof(int64_t)) = colNum;
     aggFunc->colSize = -8;
     return aggFunc;
@@ -4357,6 +4393,7 @@ embedDBAggregateFunc *createMinAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating min aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
@@ -4365,6 +4402,8 @@ embedDBAggregateFunc *createMinAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating min aggregate function\n");
 #endif
+        free(state);
+        free(aggFunc);
         return NULL;
     }
     aggFunc->state = state;
@@ -4422,6 +4461,7 @@ embedDBAggregateFunc *createMaxAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating max aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
@@ -4430,6 +4470,8 @@ embedDBAggregateFunc *createMaxAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating max aggregate function\n");
 #endif
+        free(state);
+        free(aggFunc);
         return NULL;
     }
     aggFunc->state = state;
@@ -4526,6 +4568,7 @@ embedDBAggregateFunc *createAvgAggregate(uint8_t colNum, int8_t outputFloatSize)
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating avg aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 60e3b51..2a9c22e 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -224,12 +224,18 @@ embedDBOperator* createTableScanOperator(embedDBState* state, embedDBIterator* i
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while creating TableScan operator\n");
 #endif
+        free(op);
         return NULL;
     }
     memcpy(op->state, &state, sizeof(void*));
     memcpy((int8_t*)op->state + sizeof(void*), &it, sizeof(void*));
 
     op->schema = copySchema(baseSchema);
+    if (op->schema == NULL) {
+        free(op->state);
+        free(op);
+        return NULL;
+    }
     op->input = NULL;
     op->recordBuffer = NULL;
 
@@ -344,6 +350,7 @@ embedDBOperator* createProjectionOperator(embedDBOperator* input, uint8_t numCol
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while creating Projection operator\n");
 #endif
+        free(state);
         return NULL;
     }
 
@@ -451,6 +458,7 @@ embedDBOperator* createSelectionOperator(embedDBOperator* input, int8_t colNum,
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating Selection operator\n");
 #endif
+        free(state);
         return NULL;
     }
     op->state = state;
@@ -636,6 +644,7 @@ embedDBOperator* createAggregateOperator(embedDBOperator* input, int8_t (*groupf
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating aggregate operator\n");
 #endif
+        free(state);
         return NULL;
     }
 
@@ -809,6 +818,7 @@ embedDBOperator* createKeyJoinOperator(embedDBOperator* input1, embedDBOperator*
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating join operator\n");
 #endif
+        free(op);
         return NULL;
     }
     state->input2 = input2;
@@ -842,10 +852,23 @@ void countCompute(embedDBAggregateFunc* aggFunc, embedDBSchema* outputSchema, vo
  */
 embedDBAggregateFunc* createCountAggregate() {
     embedDBAggregateFunc* aggFunc = malloc(sizeof(embedDBAggregateFunc));
+    if (aggFunc == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating count aggregate function\n");
+#endif
+        return NULL;
+    }
     aggFunc->reset = countReset;
     aggFunc->add = countAdd;
     aggFunc->compute = countCompute;
     aggFunc->state = malloc(sizeof(uint32_t));
+    if (aggFunc->state == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating count aggregate function\n");
+#endif
+        free(aggFunc);
+        return NULL;
+    }
     aggFunc->colSize = 4;
     return aggFunc;
 }
@@ -894,10 +917,23 @@ void sumCompute(embedDBAggregateFunc* aggFunc, embedDBSchema* outputSchema, void
  */
 embedDBAggregateFunc* createSumAggregate(uint8_t colNum) {
     embedDBAggregateFunc* aggFunc = malloc(sizeof(embedDBAggregateFunc));
+    if (aggFunc == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating sum aggregate function\n");
+#endif
+        return NULL;
+    }
     aggFunc->reset = sumReset;
     aggFunc->add = sumAdd;
     aggFunc->compute = sumCompute;
     aggFunc->state = malloc(sizeof(int8_t) + sizeof(int64_t));
+    if (aggFunc->state == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating sum aggregate function\n");
+#endif
+        free(aggFunc);
+        return NULL;
+    }
     *((uint8_t*)aggFunc->state + sizeof(int64_t)) = colNum;
     aggFunc->colSize = -8;
     return aggFunc;
@@ -959,6 +995,7 @@ embedDBAggregateFunc* createMinAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating min aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
@@ -967,6 +1004,8 @@ embedDBAggregateFunc* createMinAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating min aggregate function\n");
 #endif
+        free(state);
+        free(aggFunc);
         return NULL;
     }
     aggFunc->state = state;
@@ -1024,6 +1063,7 @@ embedDBAggregateFunc* createMaxAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating max aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
@@ -1032,6 +1072,8 @@ embedDBAggregateFunc* createMaxAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating max aggregate function\n");
 #endif
+        free(state);
+        free(aggFunc);
         return NULL;
     }
     aggFunc->state = state;
@@ -1128,6 +1170,7 @@ embedDBAggregateFunc* createAvgAggregate(uint8_t colNum, int8_t outputFloatSize)
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating avg aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
-- 
2.43.0


From d7c614dc82c327878ffe4896ee21c832a6746810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:25 +0000
Subject: [PATCH 61/76] fix: a query that can not be initialized returns no
 rows instead of crashing

---
 lib/Distribution/embedDB.c            | 45 +++++++++++++++++++++++++++
 src/query-interface/advancedQueries.c | 45 +++++++++++++++++++++++++++
 2 files changed, 90 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 60f649e..2571e6c 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3576,6 +3576,11 @@ int8_t nextTableScan(embedDBOperator *op) {
         return 0;
     }
 
+    // Check that the operator could be initialized
+    if (op->recordBuffer == NULL) {
+        return 0;
+    }
+
     // Get next record
     embedDBState *state = (embedDBState *)(((void **)op->state)[0]);
     embedDBIterator *it = (embedDBIterator *)(((void **)op->state)[1]);
@@ -3659,6 +3664,9 @@ void initProjection(embedDBOperator *op) {
     uint8_t numCols = *(uint8_t *)op->state;
     uint8_t *cols = (uint8_t *)op->state + 1;
     const embedDBSchema *inputSchema = op->input->schema;
+    if (inputSchema == NULL) {
+        return;
+    }
 
     // Init output schema
     if (op->schema == NULL) {
@@ -3675,6 +3683,7 @@ void initProjection(embedDBOperator *op) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Failed to allocate space for projection while building schema\n");
 #endif
+            embedDBFreeSchema(&op->schema);
             return;
         }
         for (uint8_t i = 0; i < numCols; i++) {
@@ -3699,6 +3708,11 @@ int8_t nextProjection(embedDBOperator *op) {
     uint8_t *cols = (uint8_t *)op->state + 1;
     embedDBSchema *inputSchema = op->input->schema;
 
+    // Check that the operator could be initialized
+    if (op->recordBuffer == NULL) {
+        return 0;
+    }
+
     // Get next record
     if (op->input->next(op->input)) {
         uint16_t curColPos = 0;
@@ -3780,9 +3794,16 @@ void initSelection(embedDBOperator *op) {
     // Init input
     op->input->init(op->input);
 
+    if (op->input->schema == NULL) {
+        return;
+    }
+
     // Init output schema
     if (op->schema == NULL) {
         op->schema = copySchema(op->input->schema);
+        if (op->schema == NULL) {
+            return;
+        }
     }
 
     // Init output buffer
@@ -3801,6 +3822,11 @@ int8_t nextSelection(embedDBOperator *op) {
     embedDBSchema *schema = op->input->schema;
     struct selectionInfo *state = op->state;
 
+    // Check that the operator could be initialized
+    if (op->recordBuffer == NULL) {
+        return 0;
+    }
+
     int8_t colNum = state->colNum;
     uint16_t colPos = getColOffsetFromSchema(schema, colNum);
     int8_t operation = state->operation;
@@ -3896,6 +3922,10 @@ void initAggregate(embedDBOperator *op) {
     struct aggregateInfo *state = op->state;
     state->isLastRecordUsable = 0;
 
+    if (op->input->schema == NULL) {
+        return;
+    }
+
     // Init output schema
     if (op->schema == NULL) {
         op->schema = malloc(sizeof(embedDBSchema));
@@ -3911,6 +3941,7 @@ void initAggregate(embedDBOperator *op) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Failed to malloc while initializing aggregate operator\n");
 #endif
+            embedDBFreeSchema(&op->schema);
             return;
         }
         for (uint8_t i = 0; i < state->functionsLength; i++) {
@@ -3945,6 +3976,11 @@ int8_t nextAggregate(embedDBOperator *op) {
     struct aggregateInfo *state = op->state;
     embedDBOperator *input = op->input;
 
+    // Check that the operator could be initialized
+    if (op->recordBuffer == NULL || state->lastRecordBuffer == NULL) {
+        return 0;
+    }
+
     // Reset each operator
     for (int i = 0; i < state->functionsLength; i++) {
         if (state->functions[i].reset != NULL) {
@@ -4074,6 +4110,9 @@ void initKeyJoin(embedDBOperator *op) {
 
     embedDBSchema *schema1 = input1->schema;
     embedDBSchema *schema2 = input2->schema;
+    if (schema1 == NULL || schema2 == NULL) {
+        return;
+    }
 
     // Check that join is compatible
     if (schema1->columnSizes[0] != schema2->columnSizes[0] || schema1->columnSizes[0] < 0 || schema2->columnSizes[0] < 0) {
@@ -4098,6 +4137,7 @@ void initKeyJoin(embedDBOperator *op) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Failed to malloc while initializing join operator\n");
 #endif
+            embedDBFreeSchema(&op->schema);
             return;
         }
         memcpy(op->schema->columnSizes, schema1->columnSizes, schema1->numCols);
@@ -4124,6 +4164,11 @@ int8_t nextKeyJoin(embedDBOperator *op) {
     embedDBSchema *schema1 = input1->schema;
     embedDBSchema *schema2 = input2->schema;
 
+    // Check that the operator could be initialized
+    if (op->recordBuffer == NULL) {
+        return 0;
+    }
+
     // We've already used this match
     void *record1 = input1->recordBuffer;
     void *record2 = input2->recordBuffer;
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 2a9c22e..98926ad 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -178,6 +178,11 @@ int8_t nextTableScan(embedDBOperator* op) {
         return 0;
     }
 
+    // Check that the operator could be initialized
+    if (op->recordBuffer == NULL) {
+        return 0;
+    }
+
     // Get next record
     embedDBState* state = (embedDBState*)(((void**)op->state)[0]);
     embedDBIterator* it = (embedDBIterator*)(((void**)op->state)[1]);
@@ -261,6 +266,9 @@ void initProjection(embedDBOperator* op) {
     uint8_t numCols = *(uint8_t*)op->state;
     uint8_t* cols = (uint8_t*)op->state + 1;
     const embedDBSchema* inputSchema = op->input->schema;
+    if (inputSchema == NULL) {
+        return;
+    }
 
     // Init output schema
     if (op->schema == NULL) {
@@ -277,6 +285,7 @@ void initProjection(embedDBOperator* op) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Failed to allocate space for projection while building schema\n");
 #endif
+            embedDBFreeSchema(&op->schema);
             return;
         }
         for (uint8_t i = 0; i < numCols; i++) {
@@ -301,6 +310,11 @@ int8_t nextProjection(embedDBOperator* op) {
     uint8_t* cols = (uint8_t*)op->state + 1;
     embedDBSchema* inputSchema = op->input->schema;
 
+    // Check that the operator could be initialized
+    if (op->recordBuffer == NULL) {
+        return 0;
+    }
+
     // Get next record
     if (op->input->next(op->input)) {
         uint16_t curColPos = 0;
@@ -382,9 +396,16 @@ void initSelection(embedDBOperator* op) {
     // Init input
     op->input->init(op->input);
 
+    if (op->input->schema == NULL) {
+        return;
+    }
+
     // Init output schema
     if (op->schema == NULL) {
         op->schema = copySchema(op->input->schema);
+        if (op->schema == NULL) {
+            return;
+        }
     }
 
     // Init output buffer
@@ -403,6 +424,11 @@ int8_t nextSelection(embedDBOperator* op) {
     embedDBSchema* schema = op->input->schema;
     struct selectionInfo* state = op->state;
 
+    // Check that the operator could be initialized
+    if (op->recordBuffer == NULL) {
+        return 0;
+    }
+
     int8_t colNum = state->colNum;
     uint16_t colPos = getColOffsetFromSchema(schema, colNum);
     int8_t operation = state->operation;
@@ -498,6 +524,10 @@ void initAggregate(embedDBOperator* op) {
     struct aggregateInfo* state = op->state;
     state->isLastRecordUsable = 0;
 
+    if (op->input->schema == NULL) {
+        return;
+    }
+
     // Init output schema
     if (op->schema == NULL) {
         op->schema = malloc(sizeof(embedDBSchema));
@@ -513,6 +543,7 @@ void initAggregate(embedDBOperator* op) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Failed to malloc while initializing aggregate operator\n");
 #endif
+            embedDBFreeSchema(&op->schema);
             return;
         }
         for (uint8_t i = 0; i < state->functionsLength; i++) {
@@ -547,6 +578,11 @@ int8_t nextAggregate(embedDBOperator* op) {
     struct aggregateInfo* state = op->state;
     embedDBOperator* input = op->input;
 
+    // Check that the operator could be initialized
+    if (op->recordBuffer == NULL || state->lastRecordBuffer == NULL) {
+        return 0;
+    }
+
     // Reset each operator
     for (int i = 0; i < state->functionsLength; i++) {
         if (state->functions[i].reset != NULL) {
@@ -676,6 +712,9 @@ void initKeyJoin(embedDBOperator* op) {
 
     embedDBSchema* schema1 = input1->schema;
     embedDBSchema* schema2 = input2->schema;
+    if (schema1 == NULL || schema2 == NULL) {
+        return;
+    }
 
     // Check that join is compatible
     if (schema1->columnSizes[0] != schema2->columnSizes[0] || schema1->columnSizes[0] < 0 || schema2->columnSizes[0] < 0) {
@@ -700,6 +739,7 @@ void initKeyJoin(embedDBOperator* op) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Failed to malloc while initializing join operator\n");
 #endif
+            embedDBFreeSchema(&op->schema);
             return;
         }
         memcpy(op->schema->columnSizes, schema1->columnSizes, schema1->numCols);
@@ -726,6 +766,11 @@ int8_t nextKeyJoin(embedDBOperator* op) {
     embedDBSchema* schema1 = input1->schema;
     embedDBSchema* schema2 = input2->schema;
 
+    // Check that the operator could be initialized
+    if (op->recordBuffer == NULL) {
+        return 0;
+    }
+
     // We've already used this match
     void* record1 = input1->recordBuffer;
     void* record2 = input2->recordBuffer;
-- 
2.43.0


From 25737fc5aa672207124244b4a4744c040126551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:32 +0000
Subject: [PATCH 62/76] fix: embedDBInit fails when there is no memory for the
 spline

---
 lib/Distribution/embedDB.c | 18 ++++++++++++++++--
 lib/Distribution/embedDB.h |  2 +-
 src/embedDB/embedDB.c      |  9 ++++++++-
 src/spline/spline.c        |  9 ++++++++-
 src/spline/spline.h        |  2 +-
 5 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 2571e6c..8addfe6 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -79,8 +79,9 @@
  * @param    size       Maximum size of spline
  * @param    maxError   Maximum error allowed in spline
  * @param    keySize    Size of key in bytes
+ * @return   Returns zero if successful and -1 if there is not enough memory
  */
-void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
+int8_t splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     uint8_t pointSize = sizeof(uint32_t) + keySize;
     spl->count = 0;
     spl->pointsStartIndex = 0;
@@ -95,6 +96,12 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->upper = malloc(pointSize);
     spl->firstSplinePoint = malloc(pointSize);
     spl->numAddCalls = 0;
+
+    if (spl->points == NULL || spl->lastKey == NULL || spl->lower == NULL || spl->upper == NULL || spl->firstSplinePoint == NULL) {
+        splineClose(spl);
+        return -1;
+    }
+    return 0;
 }
 
 /**
@@ -796,7 +803,14 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
             return -1;
         }
         state->spl = malloc(sizeof(spline));
-        splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize);
+        if (state->spl == NULL || splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to allocate memory for the spline\n");
+#endif
+            free(state->spl);
+            state->spl = NULL;
+            return -1;
+        }
     }
 
     /* Allocate file for data*/
diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 53eb684..c917b50 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -113,7 +113,7 @@ struct spline_s {
  * @param    maxError   Maximum error allowed in spline
  * @param    keySize    Size of key in bytes
  */
-void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize);
+int8_t splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize);
 
 /**
  * @brief	Builds a spline structure given a sorted data set. GreedySplineCorridor
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 4507173..2ee8300 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -310,7 +310,14 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
             return -1;
         }
         state->spl = malloc(sizeof(spline));
-        splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize);
+        if (state->spl == NULL || splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to allocate memory for the spline\n");
+#endif
+            free(state->spl);
+            state->spl = NULL;
+            return -1;
+        }
     }
 
     /* Allocate file for data*/
diff --git a/src/spline/spline.c b/src/spline/spline.c
index 479d92e..86d0998 100644
--- a/src/spline/spline.c
+++ b/src/spline/spline.c
@@ -50,8 +50,9 @@
  * @param    size       Maximum size of spline
  * @param    maxError   Maximum error allowed in spline
  * @param    keySize    Size of key in bytes
+ * @return   Returns zero if successful and -1 if there is not enough memory
  */
-void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
+int8_t splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     uint8_t pointSize = sizeof(uint32_t) + keySize;
     spl->count = 0;
     spl->pointsStartIndex = 0;
@@ -66,6 +67,12 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->upper = malloc(pointSize);
     spl->firstSplinePoint = malloc(pointSize);
     spl->numAddCalls = 0;
+
+    if (spl->points == NULL || spl->lastKey == NULL || spl->lower == NULL || spl->upper == NULL || spl->firstSplinePoint == NULL) {
+        splineClose(spl);
+        return -1;
+    }
+    return 0;
 }
 
 /**
diff --git a/src/spline/spline.h b/src/spline/spline.h
index 0d3f000..b107729 100644
--- a/src/spline/spline.h
+++ b/src/spline/spline.h
@@ -71,7 +71,7 @@ struct spline_s {
  * @param    maxError   Maximum error allowed in spline
  * @param    keySize    Size of key in bytes
  */
-void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize);
+int8_t splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize);
 
 /**
  * @brief	Builds a spline structure given a sorted data set. GreedySplineCorridor
-- 
2.43.0


From 64db197418b6db4f76e66906eddd33637b945a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:40 +0000
Subject: [PATCH 63/76] fix: an initialization that fails late frees its spline

---
 lib/Distribution/embedDB.c | 27 +++++++++++++++++++++------
 src/embedDB/embedDB.c      | 27 +++++++++++++++++++++------
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 8addfe6..7ccf317 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -643,6 +643,21 @@ void *embedDBGetMaxKey(embedDBState *state, void *buffer) {
     return (void *)((int8_t *)buffer + state->headerSize + (count - 1) * state->recordSize);
 }
 
+/**
+ * @brief   Frees what an initialization that does not succeed has allocated.
+ * @param   state   embedDB algorithm state structure
+ * @param   result  The error
+ * @return  Returns the error
+ */
+static int8_t abandonInit(embedDBState *state, int8_t result) {
+    if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
+        splineClose(state->spl);
+        free(state->spl);
+        state->spl = NULL;
+    }
+    return result;
+}
+
 /**
  * @brief   Initialize embedDB structure.
  * @param   state           embedDB algorithm state structure
@@ -818,7 +833,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     dataInitResult = embedDBInitData(state);
 
     if (dataInitResult != 0) {
-        return dataInitResult;
+        return abandonInit(state, dataInitResult);
     }
 
     /* Allocate file and buffer for index */
@@ -828,7 +843,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #ifdef PRINT_ERRORS
             printf("ERROR: embedDB using index requires at least 4 page buffers.\n");
 #endif
-            return -1;
+            return abandonInit(state, -1);
         } else {
             indexInitResult = embedDBInitIndex(state);
         }
@@ -838,7 +853,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     }
 
     if (indexInitResult != 0) {
-        return indexInitResult;
+        return abandonInit(state, indexInitResult);
     }
 
     /* Allocate file and buffer for variable data */
@@ -848,7 +863,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #ifdef PRINT_ERRORS
             printf("ERROR: embedDB using variable records requires at least 4 page buffers if there is no index and 6 if there is.\n");
 #endif
-            return -1;
+            return abandonInit(state, -1);
         } else {
             varDataInitResult = embedDBInitVarData(state);
         }
@@ -858,7 +873,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     }
 
     if (varDataInitResult != 0) {
-        return varDataInitResult;
+        return abandonInit(state, varDataInitResult);
     }
 
     embedDBResetStats(state);
@@ -3239,7 +3254,7 @@ void embedDBClose(embedDBState *state) {
     if (state->varFile != NULL) {
         state->fileInterface->close(state->varFile);
     }
-    if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
+    if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && state->spl != NULL) {
         splineClose(state->spl);
         free(state->spl);
         state->spl = NULL;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 2ee8300..92ec9ce 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -150,6 +150,21 @@ void *embedDBGetMaxKey(embedDBState *state, void *buffer) {
     return (void *)((int8_t *)buffer + state->headerSize + (count - 1) * state->recordSize);
 }
 
+/**
+ * @brief   Frees what an initialization that does not succeed has allocated.
+ * @param   state   embedDB algorithm state structure
+ * @param   result  The error
+ * @return  Returns the error
+ */
+static int8_t abandonInit(embedDBState *state, int8_t result) {
+    if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
+        splineClose(state->spl);
+        free(state->spl);
+        state->spl = NULL;
+    }
+    return result;
+}
+
 /**
  * @brief   Initialize embedDB structure.
  * @param   state           embedDB algorithm state structure
@@ -325,7 +340,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     dataInitResult = embedDBInitData(state);
 
     if (dataInitResult != 0) {
-        return dataInitResult;
+        return abandonInit(state, dataInitResult);
     }
 
     /* Allocate file and buffer for index */
@@ -335,7 +350,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #ifdef PRINT_ERRORS
             printf("ERROR: embedDB using index requires at least 4 page buffers.\n");
 #endif
-            return -1;
+            return abandonInit(state, -1);
         } else {
             indexInitResult = embedDBInitIndex(state);
         }
@@ -345,7 +360,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     }
 
     if (indexInitResult != 0) {
-        return indexInitResult;
+        return abandonInit(state, indexInitResult);
     }
 
     /* Allocate file and buffer for variable data */
@@ -355,7 +370,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #ifdef PRINT_ERRORS
             printf("ERROR: embedDB using variable records requires at least 4 page buffers if there is no index and 6 if there is.\n");
 #endif
-            return -1;
+            return abandonInit(state, -1);
         } else {
             varDataInitResult = embedDBInitVarData(state);
         }
@@ -365,7 +380,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     }
 
     if (varDataInitResult != 0) {
-        return varDataInitResult;
+        return abandonInit(state, varDataInitResult);
     }
 
     embedDBResetStats(state);
@@ -2745,7 +2760,7 @@ void embedDBClose(embedDBState *state) {
     if (state->varFile != NULL) {
         state->fileInterface->close(state->varFile);
     }
-    if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
+    if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && state->spl != NULL) {
         splineClose(state->spl);
         free(state->spl);
         state->spl = NULL;
-- 
2.43.0


From 73359c7bf33477b136d54e53fb22bf25006ee360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:48 +0000
Subject: [PATCH 64/76] fix: an iterator without memory for its bitmap scans
 without it

---
 lib/Distribution/embedDB.c | 5 ++++-
 src/embedDB/embedDB.c      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 7ccf317..3db89ab 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2406,7 +2406,10 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
         /* Verify that bitmap index is useful (must have set either min or max data value) */
         if (it->minData != NULL || it->maxData != NULL) {
             it->queryBitmap = calloc(1, state->bitmapSize);
-            state->buildBitmapFromRange(it->minData, it->maxData, it->queryBitmap);
+            /* The query does not need the bitmap, it only looks at fewer pages with it */
+            if (it->queryBitmap != NULL) {
+                state->buildBitmapFromRange(it->minData, it->maxData, it->queryBitmap);
+            }
         }
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 92ec9ce..1372a36 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1912,7 +1912,10 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
         /* Verify that bitmap index is useful (must have set either min or max data value) */
         if (it->minData != NULL || it->maxData != NULL) {
             it->queryBitmap = calloc(1, state->bitmapSize);
-            state->buildBitmapFromRange(it->minData, it->maxData, it->queryBitmap);
+            /* The query does not need the bitmap, it only looks at fewer pages with it */
+            if (it->queryBitmap != NULL) {
+                state->buildBitmapFromRange(it->minData, it->maxData, it->queryBitmap);
+            }
         }
     }
 
-- 
2.43.0


From 1541f90065db88ead274ba9c6175b7a398173d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:55 +0000
Subject: [PATCH 65/76] fix: the file adaptors return an error when there is no
 memory

---
 .../dataflashFileInterface.c                     |  6 ++++++
 .../desktopFileInterface.c                       | 16 ++++++++++++++++
 lib/SD-File-Interface/SDFileInterface.c          | 10 ++++++++++
 3 files changed, 32 insertions(+)

diff --git a/lib/Dataflash-File-Interface/dataflashFileInterface.c b/lib/Dataflash-File-Interface/dataflashFileInterface.c
index 3e8e913..782185c 100644
--- a/lib/Dataflash-File-Interface/dataflashFileInterface.c
+++ b/lib/Dataflash-File-Interface/dataflashFileInterface.c
@@ -45,6 +45,9 @@ typedef struct {
 
 void *setupDataflashFile(uint32_t startPage, uint32_t numPages) {
     DF_FILE_INFO *fileInfo = malloc(sizeof(DF_FILE_INFO));
+    if (fileInfo == NULL) {
+        return NULL;
+    }
     fileInfo->startPage = startPage;
     fileInfo->numPages = numPages;
     return fileInfo;
@@ -102,6 +105,9 @@ int8_t DF_FLUSH(void *file) {
 
 embedDBFileInterface *getDataflashInterface() {
     embedDBFileInterface *fileInterface = malloc(sizeof(embedDBFileInterface));
+    if (fileInterface == NULL) {
+        return NULL;
+    }
     fileInterface->close = DF_CLOSE;
     fileInterface->read = DF_READ;
     fileInterface->write = DF_WRITE;
diff --git a/lib/Desktop-File-Interface/desktopFileInterface.c b/lib/Desktop-File-Interface/desktopFileInterface.c
index f34e8a9..78119f3 100644
--- a/lib/Desktop-File-Interface/desktopFileInterface.c
+++ b/lib/Desktop-File-Interface/desktopFileInterface.c
@@ -7,8 +7,15 @@ typedef struct {
 
 void *setupFile(char *filename) {
     FILE_INFO *fileInfo = malloc(sizeof(FILE_INFO));
+    if (fileInfo == NULL) {
+        return NULL;
+    }
     int nameLen = strlen(filename);
     fileInfo->filename = calloc(1, nameLen + 1);
+    if (fileInfo->filename == NULL) {
+        free(fileInfo);
+        return NULL;
+    }
     memcpy(fileInfo->filename, filename, nameLen);
     fileInfo->file = NULL;
     return fileInfo;
@@ -60,6 +67,9 @@ int8_t MOCK_FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize,
     /* Setup data to insert */
     size_t memorySize = (size_t)(endPage - startPage) * pageSize;
     char *buffer = malloc(memorySize);
+    if (buffer == NULL) {
+        return 0;
+    }
     memset(buffer, 1, memorySize);
 
     /* Erase data */
@@ -100,6 +110,9 @@ int8_t FILE_OPEN(void *file, uint8_t mode) {
 
 embedDBFileInterface *getFileInterface() {
     embedDBFileInterface *fileInterface = malloc(sizeof(embedDBFileInterface));
+    if (fileInterface == NULL) {
+        return NULL;
+    }
     fileInterface->close = FILE_CLOSE;
     fileInterface->read = FILE_READ;
     fileInterface->write = FILE_WRITE;
@@ -111,6 +124,9 @@ embedDBFileInterface *getFileInterface() {
 
 embedDBFileInterface *getMockEraseFileInterface() {
     embedDBFileInterface *fileInterface = malloc(sizeof(embedDBFileInterface));
+    if (fileInterface == NULL) {
+        return NULL;
+    }
     fileInterface->close = FILE_CLOSE;
     fileInterface->read = FILE_READ;
     fileInterface->write = FILE_WRITE;
diff --git a/lib/SD-File-Interface/SDFileInterface.c b/lib/SD-File-Interface/SDFileInterface.c
index 027117b..97b046a 100644
--- a/lib/SD-File-Interface/SDFileInterface.c
+++ b/lib/SD-File-Interface/SDFileInterface.c
@@ -42,8 +42,15 @@ typedef struct {
 
 void *setupSDFile(char *filename) {
     SD_FILE_INFO *fileInfo = malloc(sizeof(SD_FILE_INFO));
+    if (fileInfo == NULL) {
+        return NULL;
+    }
     int nameLen = strlen(filename);
     fileInfo->filename = calloc(1, nameLen + 1);
+    if (fileInfo->filename == NULL) {
+        free(fileInfo);
+        return NULL;
+    }
     memcpy(fileInfo->filename, filename, nameLen);
     fileInfo->sdFile = NULL;
     return fileInfo;
@@ -132,6 +139,9 @@ int8_t FILE_OPEN(void *file, uint8_t mode) {
 
 embedDBFileInterface *getSDInterface() {
     embedDBFileInterface *fileInterface = malloc(sizeof(embedDBFileInterface));
+    if (fileInterface == NULL) {
+        return NULL;
+    }
     fileInterface->close = FILE_CLOSE;
     fileInterface->read = FILE_READ;
     fileInterface->write = FILE_WRITE;
-- 
2.43.0


From cfc11c6d7d1ae91e28546beba1c9d8963740a372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:15 +0000
Subject: [PATCH 66/76] fix: a failing variable data write printed its message
 without PRINT_ERRORS

---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 3db89ab..8be8a36 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3065,7 +3065,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
     // Write to file
     uint32_t val = state->fileInterface->write(buffer, physicalPageId, state->pageSize, state->varFile);
     if (val == 0) {
-#ifndef PRINT
+#ifdef PRINT_ERRORS
         printf("Failed to write vardata page: %i\n", state->nextVarPageId);
 #endif
         return -1;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 1372a36..449fec5 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2571,7 +2571,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
     // Write to file
     uint32_t val = state->fileInterface->write(buffer, physicalPageId, state->pageSize, state->varFile);
     if (val == 0) {
-#ifndef PRINT
+#ifdef PRINT_ERRORS
         printf("Failed to write vardata page: %i\n", state->nextVarPageId);
 #endif
         return -1;
-- 
2.43.0


From 75e921a4ab04ddbb8af3bf3fb033217160cef2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:44 +0000
Subject: [PATCH 67/76] fix: splinePrint's formats did not match its arguments

---
 lib/Distribution/embedDB.c | 6 +++---
 src/spline/spline.c        | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 8be8a36..f7f1b0c 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -355,15 +355,15 @@ void splinePrint(spline *spl) {
         printf("No spline to print.\n");
         return;
     }
-    printf("Spline max error (%lu):\n", spl->maxError);
-    printf("Spline points (%lu):\n", spl->count);
+    printf("Spline max error (%lu):\n", (unsigned long)spl->maxError);
+    printf("Spline points (%lu):\n", (unsigned long)spl->count);
     uint64_t keyVal = 0;
     uint32_t page = 0;
     for (id_t i = 0; i < spl->count; i++) {
         void *point = splinePointLocation(spl, i);
         memcpy(&keyVal, point, spl->keySize);
         memcpy(&page, (int8_t *)point + spl->keySize, sizeof(uint32_t));
-        printf("[%lu]: (%lu, %li)\n", i, keyVal, page);
+        printf("[%lu]: (%llu, %lu)\n", (unsigned long)i, (unsigned long long)keyVal, (unsigned long)page);
     }
     printf("\n");
 }
diff --git a/src/spline/spline.c b/src/spline/spline.c
index 86d0998..6b7816c 100644
--- a/src/spline/spline.c
+++ b/src/spline/spline.c
@@ -326,15 +326,15 @@ void splinePrint(spline *spl) {
         printf("No spline to print.\n");
         return;
     }
-    printf("Spline max error (%lu):\n", spl->maxError);
-    printf("Spline points (%lu):\n", spl->count);
+    printf("Spline max error (%lu):\n", (unsigned long)spl->maxError);
+    printf("Spline points (%lu):\n", (unsigned long)spl->count);
     uint64_t keyVal = 0;
     uint32_t page = 0;
     for (id_t i = 0; i < spl->count; i++) {
         void *point = splinePointLocation(spl, i);
         memcpy(&keyVal, point, spl->keySize);
         memcpy(&page, (int8_t *)point + spl->keySize, sizeof(uint32_t));
-        printf("[%lu]: (%lu, %li)\n", i, keyVal, page);
+        printf("[%lu]: (%llu, %lu)\n", (unsigned long)i, (unsigned long long)keyVal, (unsigned long)page);
     }
     printf("\n");
 }
-- 
2.43.0


From ef00dc7c6a22d517e65112525dde1e2726ab1b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:53 +0000
Subject: [PATCH 68/76] fix: embedDBPrintStats printed large counters as
 negative numbers

---
 lib/Distribution/embedDB.c | 10 +++++-----
 src/embedDB/embedDB.c      | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index f7f1b0c..27f80e6 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2778,11 +2778,11 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
  * @param	state	embedDB state structure
  */
 void embedDBPrintStats(embedDBState *state) {
-    printf("Num reads: %d\n", state->numReads);
-    printf("Buffer hits: %d\n", state->bufferHits);
-    printf("Num writes: %d\n", state->numWrites);
-    printf("Num index reads: %d\n", state->numIdxReads);
-    printf("Num index writes: %d\n", state->numIdxWrites);
+    printf("Num reads: %lu\n", (unsigned long)state->numReads);
+    printf("Buffer hits: %lu\n", (unsigned long)state->bufferHits);
+    printf("Num writes: %lu\n", (unsigned long)state->numWrites);
+    printf("Num index reads: %lu\n", (unsigned long)state->numIdxReads);
+    printf("Num index writes: %lu\n", (unsigned long)state->numIdxWrites);
     printf("Max Error: %d\n", state->maxError);
 
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 449fec5..f0d2f6e 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2284,11 +2284,11 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
  * @param	state	embedDB state structure
  */
 void embedDBPrintStats(embedDBState *state) {
-    printf("Num reads: %d\n", state->numReads);
-    printf("Buffer hits: %d\n", state->bufferHits);
-    printf("Num writes: %d\n", state->numWrites);
-    printf("Num index reads: %d\n", state->numIdxReads);
-    printf("Num index writes: %d\n", state->numIdxWrites);
+    printf("Num reads: %lu\n", (unsigned long)state->numReads);
+    printf("Buffer hits: %lu\n", (unsigned long)state->bufferHits);
+    printf("Num writes: %lu\n", (unsigned long)state->numWrites);
+    printf("Num index reads: %lu\n", (unsigned long)state->numIdxReads);
+    printf("Num index writes: %lu\n", (unsigned long)state->numIdxWrites);
     printf("Max Error: %d\n", state->maxError);
 
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-- 
2.43.0


From a35ace7463efb61478ddf39f9562a1f37297dc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 69/76] fix: a flush did not flush the variable data file when
 its buffer was empty

---
 lib/Distribution/embedDB.c | 9 ++-------
 src/embedDB/embedDB.c      | 9 ++-------
 2 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 27f80e6..b9229e6 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1952,7 +1952,7 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
     }
 
     // If the data page will be written by this insert, the variable data of its records has to be in storage before that
-    if (EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && advanceVarPage(state) != 0) {
+    if (EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && embedDBFlushVar(state) != 0) {
         return -1;
     }
 
@@ -2451,12 +2451,7 @@ void embedDBCloseIterator(embedDBIterator *it) {
  * @returns 0 if successul and a non-zero value otherwise
  */
 int8_t embedDBFlushVar(embedDBState *state) {
-    /* Check if we actually have any variable data in the buffer */
-    if (state->currentVarLoc % state->pageSize == state->variableDataHeaderSize) {
-        return 0;
-    }
-
-    // only flush variable buffer
+    // only flush variable buffer, which is written if there is any data in it
     if (advanceVarPage(state) != 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to write variable data page during embedDBFlushVar.");
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index f0d2f6e..5f174c4 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1458,7 +1458,7 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
     }
 
     // If the data page will be written by this insert, the variable data of its records has to be in storage before that
-    if (EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && advanceVarPage(state) != 0) {
+    if (EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && embedDBFlushVar(state) != 0) {
         return -1;
     }
 
@@ -1957,12 +1957,7 @@ void embedDBCloseIterator(embedDBIterator *it) {
  * @returns 0 if successul and a non-zero value otherwise
  */
 int8_t embedDBFlushVar(embedDBState *state) {
-    /* Check if we actually have any variable data in the buffer */
-    if (state->currentVarLoc % state->pageSize == state->variableDataHeaderSize) {
-        return 0;
-    }
-
-    // only flush variable buffer
+    // only flush variable buffer, which is written if there is any data in it
     if (advanceVarPage(state) != 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to write variable data page during embedDBFlushVar.");
-- 
2.43.0


From 3a9a1c255273342618c43f4029e58f8fd1a58bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:10 +0000
Subject: [PATCH 70/76] fix: an index page could reach storage before the data
 pages it covers

---
 lib/Distribution/embedDB.c | 3 ++-
 src/embedDB/embedDB.c      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index b9229e6..cb7acde 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2998,7 +2998,8 @@ int8_t writeFullIndexPage(embedDBState *state) {
     if (EMBEDDB_GET_COUNT(buf) < state->maxIdxRecordsPerPage)
         return 0;
 
-    if (writeIndexPage(state, buf) == -1) {
+    /* The data pages whose bitmaps are on the index page have to be in storage before it is */
+    if (!state->fileInterface->flush(state->dataFile) || writeIndexPage(state, buf) == -1) {
 #ifdef PRINT_ERRORS
         printf("Failed to write index page.");
 #endif
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 5f174c4..7f53630 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2504,7 +2504,8 @@ int8_t writeFullIndexPage(embedDBState *state) {
     if (EMBEDDB_GET_COUNT(buf) < state->maxIdxRecordsPerPage)
         return 0;
 
-    if (writeIndexPage(state, buf) == -1) {
+    /* The data pages whose bitmaps are on the index page have to be in storage before it is */
+    if (!state->fileInterface->flush(state->dataFile) || writeIndexPage(state, buf) == -1) {
 #ifdef PRINT_ERRORS
         printf("Failed to write index page.");
 #endif
-- 
2.43.0


From 77f401cbf197604ad26663463bffc674f205056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:25 +0000
Subject: [PATCH 71/76] fix: the temporary page of record level consistency was
 not flushed to storage

---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index cb7acde..82149d6 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2902,7 +2902,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
     }
 
     state->nextRLCPhysicalPageLocation++;
-    return 0;
+    return state->fileInterface->flush(state->dataFile) ? 0 : -1;
 }
 
 /**
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 7f53630..6aa2945 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2408,7 +2408,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
     }
 
     state->nextRLCPhysicalPageLocation++;
-    return 0;
+    return state->fileInterface->flush(state->dataFile) ? 0 : -1;
 }
 
 /**
-- 
2.43.0


From 8d3d613eba3f8914d8c84ff9f25dfa221322aad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:33 +0000
Subject: [PATCH 72/76] fix: repeating a failed flush reported success without
 flushing

---
 lib/Distribution/embedDB.c | 10 +++++++++-
 src/embedDB/embedDB.c      | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 82149d6..68ced06 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2470,8 +2470,16 @@ int8_t embedDBFlushVar(embedDBState *state) {
 int8_t embedDBFlush(embedDBState *state) {
     // As the first buffer is the data write buffer, no address change is required
     int8_t *buffer = (int8_t *)state->buffer + EMBEDDB_DATA_WRITE_BUFFER * state->pageSize;
-    if (EMBEDDB_GET_COUNT(buffer) < 1)
+    if (EMBEDDB_GET_COUNT(buffer) < 1) {
+        // All records are on pages, but a page may not be in storage yet if an earlier flush of its file failed
+        if (EMBEDDB_USING_VDATA(state->parameters) && embedDBFlushVar(state) != 0)
+            return -1;
+        if (!state->fileInterface->flush(state->dataFile))
+            return -1;
+        if (EMBEDDB_USING_INDEX(state->parameters) && !state->fileInterface->flush(state->indexFile))
+            return -1;
         return 0;
+    }
 
     // Flush var data page. It has to be in storage before the records that refer to it
     if (EMBEDDB_USING_VDATA(state->parameters)) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 6aa2945..16042a0 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1976,8 +1976,16 @@ int8_t embedDBFlushVar(embedDBState *state) {
 int8_t embedDBFlush(embedDBState *state) {
     // As the first buffer is the data write buffer, no address change is required
     int8_t *buffer = (int8_t *)state->buffer + EMBEDDB_DATA_WRITE_BUFFER * state->pageSize;
-    if (EMBEDDB_GET_COUNT(buffer) < 1)
+    if (EMBEDDB_GET_COUNT(buffer) < 1) {
+        // All records are on pages, but a page may not be in storage yet if an earlier flush of its file failed
+        if (EMBEDDB_USING_VDATA(state->parameters) && embedDBFlushVar(state) != 0)
+            return -1;
+        if (!state->fileInterface->flush(state->dataFile))
+            return -1;
+        if (EMBEDDB_USING_INDEX(state->parameters) && !state->fileInterface->flush(state->indexFile))
+            return -1;
         return 0;
+    }
 
     // Flush var data page. It has to be in storage before the records that refer to it
     if (EMBEDDB_USING_VDATA(state->parameters)) {
-- 
2.43.0


From ba03093b4e1f818f583bfc6cfe9648cc6ec829b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:41 +0000
Subject: [PATCH 73/76] fix: a flush wrote the index page although the flush of
 the data file failed

---
 lib/Distribution/embedDB.c | 23 +++++++++++++----------
 src/embedDB/embedDB.c      | 23 +++++++++++++----------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 68ced06..dd41b5e 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2519,19 +2519,22 @@ int8_t embedDBFlush(embedDBState *state) {
         void *bm = EMBEDDB_GET_BITMAP(state->buffer);
         memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
 
-        id_t writeResult = writeIndexPage(state, buf);
-        if (writeResult == -1) {
+        /* The index page waits for the data pages it covers to be in storage */
+        if (result == 0) {
+            id_t writeResult = writeIndexPage(state, buf);
+            if (writeResult == -1) {
 #ifdef PRINT_ERRORS
-            printf("Failed to write index page during embedDBFlush.");
+                printf("Failed to write index page during embedDBFlush.");
 #endif
-            /* The data page was written, so its records must not stay in the buffer */
-            result = -1;
-        } else if (!state->fileInterface->flush(state->indexFile)) {
-            result = -1;
-        }
+                /* The data page was written, so its records must not stay in the buffer */
+                result = -1;
+            } else if (!state->fileInterface->flush(state->indexFile)) {
+                result = -1;
+            }
 
-        /* Reinitialize buffer */
-        initIndexWriteBuffer(state, state->nextDataPageId);
+            /* Reinitialize buffer */
+            initIndexWriteBuffer(state, state->nextDataPageId);
+        }
     }
 
     /* Reinitialize buffer */
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 16042a0..cfb088b 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2025,19 +2025,22 @@ int8_t embedDBFlush(embedDBState *state) {
         void *bm = EMBEDDB_GET_BITMAP(state->buffer);
         memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
 
-        id_t writeResult = writeIndexPage(state, buf);
-        if (writeResult == -1) {
+        /* The index page waits for the data pages it covers to be in storage */
+        if (result == 0) {
+            id_t writeResult = writeIndexPage(state, buf);
+            if (writeResult == -1) {
 #ifdef PRINT_ERRORS
-            printf("Failed to write index page during embedDBFlush.");
+                printf("Failed to write index page during embedDBFlush.");
 #endif
-            /* The data page was written, so its records must not stay in the buffer */
-            result = -1;
-        } else if (!state->fileInterface->flush(state->indexFile)) {
-            result = -1;
-        }
+                /* The data page was written, so its records must not stay in the buffer */
+                result = -1;
+            } else if (!state->fileInterface->flush(state->indexFile)) {
+                result = -1;
+            }
 
-        /* Reinitialize buffer */
-        initIndexWriteBuffer(state, state->nextDataPageId);
+            /* Reinitialize buffer */
+            initIndexWriteBuffer(state, state->nextDataPageId);
+        }
     }
 
     /* Reinitialize buffer */
-- 
2.43.0


From f0ba55d5a3eb445658234911c85f8370c618ccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:08 +0000
Subject: [PATCH 74/76] fix: after a failed insert, recovery could take an
 older page for the last one written

---
 lib/Distribution/embedDB.c | 7 ++++++-
 src/embedDB/embedDB.c      | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index dd41b5e..dedc530 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2912,8 +2912,13 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    /* If the flush fails, the page holds a record that was not inserted, so the next insert writes this page again */
+    if (!state->fileInterface->flush(state->dataFile)) {
+        return -1;
+    }
+
     state->nextRLCPhysicalPageLocation++;
-    return state->fileInterface->flush(state->dataFile) ? 0 : -1;
+    return 0;
 }
 
 /**
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index cfb088b..a90c5e6 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2418,8 +2418,13 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    /* If the flush fails, the page holds a record that was not inserted, so the next insert writes this page again */
+    if (!state->fileInterface->flush(state->dataFile)) {
+        return -1;
+    }
+
     state->nextRLCPhysicalPageLocation++;
-    return state->fileInterface->flush(state->dataFile) ? 0 : -1;
+    return 0;
 }
 
 /**
-- 
2.43.0


From 927e48e00c6c1b10943e2b7a050812887a73a362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:15 +0000
Subject: [PATCH 75/76] fix: inserts needed a key comparator whose positive
 result is 1

---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index dedc530..1d5e83a 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1730,7 +1730,7 @@ int8_t checkKeyOrder(embedDBState *state, void *key) {
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
-        if (state->compareKey(key, previousKey) != 1) {
+        if (state->compareKey(key, previousKey) <= 0) {
 #ifdef PRINT_ERRORS
             printf("Keys must be strictly ascending order. Insert Failed.\n");
 #endif
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index a90c5e6..bc177dd 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1236,7 +1236,7 @@ int8_t checkKeyOrder(embedDBState *state, void *key) {
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
-        if (state->compareKey(key, previousKey) != 1) {
+        if (state->compareKey(key, previousKey) <= 0) {
 #ifdef PRINT_ERRORS
             printf("Keys must be strictly ascending order. Insert Failed.\n");
 #endif
-- 
2.43.0


From 9554f9a215001bc74a9e7e274e68776b834ea14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:28 +0000
Subject: [PATCH 76/76] fix: read values that go past the end of a variable
 data space of almost 4 GiB

The offset in the file was carried past the end of the space and wrapped around at 32 bits instead of at the end of the space.
---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 1d5e83a..c87012f 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2757,7 +2757,7 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
     while (amtRead < length && stream->bytesRead < stream->totalBytes) {
         // If the last page was read to its end, skip past the header of the next one
         if (stream->fileOffset % state->pageSize == 0)
-            stream->fileOffset += state->variableDataHeaderSize;
+            stream->fileOffset = stream->fileOffset % (state->numVarPages * state->pageSize) + state->variableDataHeaderSize;
 
         // Read in var page containing the data to read
         uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index bc177dd..c5b59db 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2263,7 +2263,7 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
     while (amtRead < length && stream->bytesRead < stream->totalBytes) {
         // If the last page was read to its end, skip past the header of the next one
         if (stream->fileOffset % state->pageSize == 0)
-            stream->fileOffset += state->variableDataHeaderSize;
+            stream->fileOffset = stream->fileOffset % (state->numVarPages * state->pageSize) + state->variableDataHeaderSize;
 
         // Read in var page containing the data to read
         uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
-- 
2.43.0

