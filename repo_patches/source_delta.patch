From b6bc034266e41ae054ed53592bf2ef07a6577578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 01/10] fix: compare dither mark and dither value without
 rounding the dither value

A sample that equals a level was quantized one level too low for the largest
dither values, because the dither value was rounded to single precision.
---
 stochasticencoder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochasticencoder.h b/stochasticencoder.h
index 57e00b3..65422d1 100644
--- a/stochasticencoder.h
+++ b/stochasticencoder.h
@@ -113,7 +113,7 @@ class StochasticEncoder {
 
       ValueType ditherMark =
           ValueType(1u << 31) * (value - leftValue) / (rightValue - leftValue);
-      if (ditherMark > ditherValue)
+      if (double(ditherMark) > double(ditherValue))
         return _decDictionary.symbol(lowerBound);
       else
         return _decDictionary.symbol(lowerBound - 1);
-- 
2.43.0


From d21d11cc59a6d9d071b97da9124300aff36ceb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:13 +0000
Subject: [PATCH 02/10] fix: Dictionary::symbol() assertion rejected the first
 entry

---
 dictionary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dictionary.h b/dictionary.h
index 2afffd5..2d14c27 100644
--- a/dictionary.h
+++ b/dictionary.h
@@ -166,7 +166,7 @@ class Dictionary {
   }
 
   symbol_t symbol(const_iterator iter) const {
-    assert(iter > begin());
+    assert(iter >= begin());
     return (iter - begin());
   }
 
-- 
2.43.0


From 1301bd1fbe6a6a1f4fd1c7e83b451512513fbf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:10 +0000
Subject: [PATCH 03/10] fix: UVector copy assignment kept the old size when the
 storage was large enough

---
 uvector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uvector.h b/uvector.h
index f9dadd1..442550a 100644
--- a/uvector.h
+++ b/uvector.h
@@ -934,9 +934,9 @@ class UVector : private Alloc {
       iterator newStorage = allocate(n);
       deallocate();
       _begin = newStorage;
-      _end = _begin + n;
-      _endOfStorage = _end;
+      _endOfStorage = _begin + n;
     }
+    _end = _begin + n;
     std::copy(other._begin, other._begin + n, _begin);
     return *this;
   }
-- 
2.43.0


From 05f79c553eba4720ceff91025f82e81b586c72d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:10 +0000
Subject: [PATCH 04/10] fix: UVector insertions read their argument after it
 was freed or moved

---
 uvector.h | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/uvector.h b/uvector.h
index 442550a..3f53d88 100644
--- a/uvector.h
+++ b/uvector.h
@@ -323,6 +323,8 @@ class UVector : private Alloc {
    * @param val New value of elements that get added to the container.
    */
   void resize(size_t n, const Tp& val) {
+    // The argument may refer to an element of this container
+    const Tp value(val);
     size_t oldSize = size();
     if (capacity() < n) {
       pointer newStorage = allocate(n);
@@ -332,7 +334,7 @@ class UVector : private Alloc {
       _endOfStorage = _begin + n;
     }
     _end = _begin + n;
-    if (oldSize < n) std::uninitialized_fill<Tp*>(_begin + oldSize, _end, val);
+    if (oldSize < n) std::uninitialized_fill<Tp*>(_begin + oldSize, _end, value);
   }
 
   /** @brief Get the number of elements the container can currently hold without
@@ -487,8 +489,10 @@ class UVector : private Alloc {
    * @param item Value of new element.
    */
   void push_back(const Tp& item) {
+    // The argument may refer to an element of this container
+    const Tp value(item);
     if (_end == _endOfStorage) enlarge(enlarge_size(1));
-    *_end = item;
+    *_end = value;
     ++_end;
   }
 
@@ -518,6 +522,8 @@ class UVector : private Alloc {
    * @return Position of the new element.
    */
   iterator insert(const_iterator position, const Tp& item) {
+    // The argument may refer to an element of this container
+    const Tp value(item);
     if (_end == _endOfStorage) {
       size_t index = position - _begin;
       enlarge_for_insert(enlarge_size(1), index, 1);
@@ -526,7 +532,7 @@ class UVector : private Alloc {
       std::move_backward(const_cast<iterator>(position), _end, _end + 1);
       ++_end;
     }
-    *const_cast<iterator>(position) = item;
+    *const_cast<iterator>(position) = value;
     return const_cast<iterator>(position);
   }
 
@@ -541,6 +547,8 @@ class UVector : private Alloc {
    * @return Position of the first new element.
    */
   iterator insert(const_iterator position, size_t n, const Tp& val) {
+    // The argument may refer to an element of this container
+    const Tp value(val);
     if (capacity() < size() + n) {
       size_t index = position - _begin;
       enlarge_for_insert(enlarge_size(n), index, n);
@@ -549,7 +557,7 @@ class UVector : private Alloc {
       std::move_backward(const_cast<iterator>(position), _end, _end + n);
       _end += n;
     }
-    std::uninitialized_fill_n<Tp*, size_t>(const_cast<iterator>(position), n, val);
+    std::uninitialized_fill_n<Tp*, size_t>(const_cast<iterator>(position), n, value);
     return const_cast<iterator>(position);
   }
 
@@ -675,6 +683,8 @@ class UVector : private Alloc {
    */
   template <typename... Args>
   iterator emplace(const_iterator position, Args&&... args) {
+    // The arguments may refer to elements of this container
+    Tp value(std::forward<Args>(args)...);
     if (_end == _endOfStorage) {
       size_t index = position - _begin;
       enlarge_for_insert(enlarge_size(1), index, 1);
@@ -683,7 +693,7 @@ class UVector : private Alloc {
       std::move_backward(const_cast<iterator>(position), _end, _end + 1);
       ++_end;
     }
-    *const_cast<iterator>(position) = Tp(std::forward<Args>(args)...);
+    *const_cast<iterator>(position) = std::move(value);
     return const_cast<iterator>(position);
   }
 
@@ -694,8 +704,10 @@ class UVector : private Alloc {
    */
   template <typename... Args>
   Tp& emplace_back(Args&&... args) {
+    // The arguments may refer to elements of this container
+    Tp value(std::forward<Args>(args)...);
     if (_end == _endOfStorage) enlarge(enlarge_size(1));
-    *_end = Tp(std::forward<Args>(args)...);
+    *_end = std::move(value);
     ++_end;
     return back();
   }
@@ -749,10 +761,12 @@ class UVector : private Alloc {
    * @param val Value of the new items.
    */
   void push_back(size_t n, const Tp& val) {
+    // The argument may refer to an element of this container
+    const Tp value(val);
     if (capacity() - size() < n) {
       enlarge(enlarge_size(n));
     }
-    std::uninitialized_fill_n<Tp*, size_t>(_end, n, val);
+    std::uninitialized_fill_n<Tp*, size_t>(_end, n, value);
     _end += n;
   }
 
-- 
2.43.0


From 93b1ae4400ddb42bcafd4d443f92af40ddadb86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:44 +0000
Subject: [PATCH 05/10] fix: accept the distribution name that
 dataManagerSpec() writes for Student's t

---
 dyscostman.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index a4783b7..7425ef8 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -85,7 +85,7 @@ void DyscoStMan::setFromSpec(const casacore::Record &spec) {
       _distribution = UniformDistribution;
     else if (str == "Gaussian")
       _distribution = GaussianDistribution;
-    else if (str == "StudentT")
+    else if (str == "StudentsT" || str == "StudentT")
       _distribution = StudentsTDistribution;
     else if (str == "TruncatedGaussian")
       _distribution = TruncatedGaussianDistribution;
-- 
2.43.0


From 33dfe3610bb92845b22a1792ec4484f92f383eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:41 +0000
Subject: [PATCH 06/10] fix: wait for the write cache before loading a block to
 write into

---
 threadeddyscocolumn.cc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 2296ef8..8c78011 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -77,6 +77,13 @@ void ThreadedDyscoColumn<DataType>::setShapeColumn(
 
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
+  // Wait until the block to be loaded is not in the write cache, because the
+  // file does not hold its last values before that
+  std::unique_lock<std::mutex> lock(_mutex);
+  while (_cache.find(blockIndex) != _cache.end())
+    _cacheChangedCondition.wait(lock);
+  lock.unlock();
+
   if (blockIndex < nBlocksInFile()) {
     readCompressedData(blockIndex, _packedBlockReadBuffer.data(), _blockSize);
     const size_t nPolarizations = _shape[0], nChannels = _shape[1],
@@ -120,15 +127,6 @@ void ThreadedDyscoColumn<DataType>::getValues(
       // Make sure array storage is contiguous.
       casacore::Bool deleteIt;
       DataType* dataPtr = dataArr->getStorage (deleteIt);
-      std::unique_lock<std::mutex> lock(_mutex);
-      // Wait until the block to be read is not in the write cache
-      typename cache_t::const_iterator cacheItemPtr = _cache.find(blockIndex);
-      while (cacheItemPtr != _cache.end()) {
-        _cacheChangedCondition.wait(lock);
-        cacheItemPtr = _cache.find(blockIndex);
-      }
-      lock.unlock();
-
       if (_currentBlock != blockIndex) {
         if (_isCurrentBlockChanged) storeBlock();
         loadBlock(blockIndex);
-- 
2.43.0


From 1eec3cdcc434a4fdb95fb68693c656374264595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:41 +0000
Subject: [PATCH 07/10] fix: a block that was not stored yet starts with zero
 values

---
 threadeddyscocolumn.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 8c78011..fd26580 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -105,6 +105,13 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
       decode(_timeBlockBuffer.get(), _unpackedSymbolReadBuffer.data(), blockRow,
              a1, a2);
     }
+  } else {
+    // This block was not stored yet: start with zero values instead of with the
+    // rows of the block that was loaded before
+    const std::vector<data_t> zeros(_shape[0] * _shape[1], data_t());
+    _timeBlockBuffer->ResetData();
+    for (size_t blockRow = 0; blockRow != nRowsInBlock(); ++blockRow)
+      _timeBlockBuffer->SetData(blockRow, 0, 0, zeros.data());
   }
   _currentBlock = blockIndex;
   _isCurrentBlockChanged = false;
-- 
2.43.0


From 40b9ab554ed95e71d181ebd33b6e60c9df1f2147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:08 +0000
Subject: [PATCH 08/10] fix: rows that were written but not stored in the file
 yet were read as zero

---
 threadeddyscocolumn.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index fd26580..74a0fef 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -126,22 +126,24 @@ void ThreadedDyscoColumn<DataType>::getValues(
     // incorrectly returned. This is a rare case but can be fixed.
     *dataArr = DataType();
   } else {
-    size_t blockIndex = getBlockIndex(rowNr);
-    if (blockIndex >= nBlocksInFile()) {
+    const size_t blockIndex = getBlockIndex(rowNr),
+                 blockRow = getRowWithinBlock(rowNr);
+    if (_currentBlock != blockIndex) {
+      if (_isCurrentBlockChanged) storeBlock();
+      loadBlock(blockIndex);
+    }
+
+    if (blockRow >= _timeBlockBuffer->NRows()) {
       // Trying to read a row that was not stored yet -- return zero
-     *dataArr = DataType();
+      *dataArr = DataType();
     } else {
       // Make sure array storage is contiguous.
       casacore::Bool deleteIt;
       DataType* dataPtr = dataArr->getStorage (deleteIt);
-      if (_currentBlock != blockIndex) {
-        if (_isCurrentBlockChanged) storeBlock();
-        loadBlock(blockIndex);
-      }
 
       // The time block encoder is now initialized and contains the unpacked
       // block.
-      _timeBlockBuffer->GetData(getRowWithinBlock(rowNr), dataPtr);
+      _timeBlockBuffer->GetData(blockRow, dataPtr);
       dataArr->putStorage (dataPtr, deleteIt);
     }
   }
-- 
2.43.0


From a51d52001535c49a9c545f27418408a900cad046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:33 +0000
Subject: [PATCH 09/10] fix: a part of a block that is not in the file yet was
 read as stale memory

---
 dyscostman.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index 7425ef8..275ef0a 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -6,6 +6,8 @@
 
 #include "header.h"
 
+#include <algorithm>
+
 void register_dyscostman() { dyscostman::DyscoStMan::registerClass(); }
 
 namespace dyscostman {
@@ -425,6 +427,8 @@ void DyscoStMan::readCompressedData(size_t blockIndex,
     if (blockIndex + 1 != _nBlocksInFile)
       throw DyscoStManError("I/O error: error while reading file '" +
                             fileName() + "'");
+    // (or not all of it): the missing part is zero, as in a hole in the file
+    std::fill(dest + _fStream->gcount(), dest + size, 0);
     _fStream->clear();  // reset fail bit
   }
 }
-- 
2.43.0


From 031e66bf034c51002bb09f2dc6c7350c57761a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:33 +0000
Subject: [PATCH 10/10] fix: the last block was lost on opening when not all of
 its columns were written

---
 dyscostman.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 275ef0a..6ed4b2d 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -301,7 +301,9 @@ void DyscoStMan::open(casacore::uInt nRow, casacore::AipsIO &) {
     throw DyscoStManError("I/O error: error reading file '" + fileName());
   std::streampos size = _fStream->tellg();
   if (size > _headerSize)
-    _nBlocksInFile = (size_t(size) - _headerSize) / _blockSize;
+    // The last block is incomplete when not all columns were written in it
+    _nBlocksInFile =
+        (size_t(size) - _headerSize + _blockSize - 1) / _blockSize;
   else
     _nBlocksInFile = 0;
 }
-- 
2.43.0

