From bb1bb9db2f9e72ea558d1ddf8da9152db0bc70f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 01/25] fix: wait for a pending write of a block before loading
 it for an update

---
 threadeddyscocolumn.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 2296ef8..3bcff66 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -77,6 +77,13 @@ void ThreadedDyscoColumn<DataType>::setShapeColumn(
 
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
+  // Wait until the block is not in the write cache anymore: it might have been
+  // stored before, in which case its data has to be written before it is read.
+  std::unique_lock<std::mutex> lock(_mutex);
+  while (_cache.find(blockIndex) != _cache.end())
+    _cacheChangedCondition.wait(lock);
+  lock.unlock();
+
   if (blockIndex < nBlocksInFile()) {
     readCompressedData(blockIndex, _packedBlockReadBuffer.data(), _blockSize);
     const size_t nPolarizations = _shape[0], nChannels = _shape[1],
-- 
2.43.0


From 19c357815df77e004c0b16a73b0b94543e3c6e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 02/25] fix: forget the current block once its buffer is handed
 to the write cache

---
 threadeddyscocolumn.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 3bcff66..baf0bf0 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -167,6 +167,8 @@ void ThreadedDyscoColumn<DataType>::storeBlock() {
   lock.unlock();
 
   _isCurrentBlockChanged = false;
+  // The buffer no longer holds a block, also when loading the next block fails.
+  _currentBlock = std::numeric_limits<size_t>::max();
   const size_t nPolarizations = _shape[0], nChannels = _shape[1];
   _timeBlockBuffer.reset(
       new TimeBlockBuffer<data_t>(nPolarizations, nChannels));
-- 
2.43.0


From 7c8b5b479a1dd1a516ac8e217cf148cf7e61c834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 03/25] fix: return buffered values when reading rows of a
 block that is not written yet

---
 threadeddyscocolumn.cc | 48 ++++++++++++++++++++----------------------
 timeblockbuffer.h      |  5 +++++
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index baf0bf0..6442190 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -113,40 +113,38 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::getValues(
     casacore::uInt rowNr, casacore::Array<DataType> *dataArr) {
-  if (!areOffsetsInitialized()) {
-    // Trying to read before first block was written -- return zero
-    // TODO if a few rows were written of the first block, those are
-    // incorrectly returned. This is a rare case but can be fixed.
-    *dataArr = DataType();
-  } else {
-    size_t blockIndex = getBlockIndex(rowNr);
-    if (blockIndex >= nBlocksInFile()) {
-      // Trying to read a row that was not stored yet -- return zero
-     *dataArr = DataType();
-    } else {
-      // Make sure array storage is contiguous.
-      casacore::Bool deleteIt;
-      DataType* dataPtr = dataArr->getStorage (deleteIt);
-      std::unique_lock<std::mutex> lock(_mutex);
+  size_t rowInBuffer = rowNr;
+  bool isInBuffer = true;
+  if (areOffsetsInitialized()) {
+    const size_t blockIndex = getBlockIndex(rowNr);
+    rowInBuffer = getRowWithinBlock(rowNr);
+    if (_currentBlock != blockIndex) {
       // Wait until the block to be read is not in the write cache
-      typename cache_t::const_iterator cacheItemPtr = _cache.find(blockIndex);
-      while (cacheItemPtr != _cache.end()) {
+      std::unique_lock<std::mutex> lock(_mutex);
+      while (_cache.find(blockIndex) != _cache.end())
         _cacheChangedCondition.wait(lock);
-        cacheItemPtr = _cache.find(blockIndex);
-      }
       lock.unlock();
 
-      if (_currentBlock != blockIndex) {
+      isInBuffer = blockIndex < nBlocksInFile();
+      if (isInBuffer) {
         if (_isCurrentBlockChanged) storeBlock();
         loadBlock(blockIndex);
       }
-
-      // The time block encoder is now initialized and contains the unpacked
-      // block.
-      _timeBlockBuffer->GetData(getRowWithinBlock(rowNr), dataPtr);
-      dataArr->putStorage (dataPtr, deleteIt);
     }
   }
+  // If the block size is not known yet, the buffer holds the rows of the first
+  // block that were written so far.
+
+  if (isInBuffer && _timeBlockBuffer->HasRow(rowInBuffer)) {
+    // Make sure array storage is contiguous.
+    casacore::Bool deleteIt;
+    DataType* dataPtr = dataArr->getStorage (deleteIt);
+    _timeBlockBuffer->GetData(rowInBuffer, dataPtr);
+    dataArr->putStorage (dataPtr, deleteIt);
+  } else {
+    // Trying to read a row that was not stored yet -- return zero
+    *dataArr = DataType();
+  }
 }
 
 template <typename DataType>
diff --git a/timeblockbuffer.h b/timeblockbuffer.h
index e847e90..6888f2f 100644
--- a/timeblockbuffer.h
+++ b/timeblockbuffer.h
@@ -38,6 +38,11 @@ class TimeBlockBuffer {
       newRow.visibilities[i] = data[i];
   }
 
+  /** True if values are available for the given row. */
+  bool HasRow(size_t blockRow) const {
+    return blockRow < _data.size() && !_data[blockRow].visibilities.empty();
+  }
+
   void GetData(size_t blockRow, data_t *destination) const {
     const data_t *srcPtr = _data[blockRow].visibilities.data();
     memcpy(destination, srcPtr,
-- 
2.43.0


From 371cd10b5d1075590a8db19750a40760aef597b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:27 +0000
Subject: [PATCH 04/25] fix: treat rows of a block that are not set or not in
 the table as zeros

---
 threadeddyscocolumn.cc | 14 ++++++++++++--
 timeblockbuffer.h      | 15 +++++++++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 6442190..df057a1 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -98,13 +98,20 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
     float *metaData = reinterpret_cast<float *>(_packedBlockReadBuffer.data());
     initializeDecode(_timeBlockBuffer.get(), metaData, nRows, _antennaCount);
     uint64_t startRow = getRowIndex(blockIndex);
-    _timeBlockBuffer->resize(nRows);
-    for (size_t blockRow = 0; blockRow != nRows; ++blockRow) {
+    // The last rows of the last block might not have been added to the table
+    const size_t nTableRows = storageManager().getNRow(),
+                 nDecodeRows = startRow < nTableRows
+                     ? std::min<size_t>(nRows, nTableRows - startRow) : 0;
+    _timeBlockBuffer->resize(nDecodeRows);
+    for (size_t blockRow = 0; blockRow != nDecodeRows; ++blockRow) {
       int a1 = (*_ant1Col)(startRow + blockRow),
           a2 = (*_ant2Col)(startRow + blockRow);
       decode(_timeBlockBuffer.get(), _unpackedSymbolReadBuffer.data(), blockRow,
              a1, a2);
     }
+  } else {
+    // Nothing is stored for this block yet: all its rows are still unset
+    _timeBlockBuffer->ResetData();
   }
   _currentBlock = blockIndex;
   _isCurrentBlockChanged = false;
@@ -151,6 +158,9 @@ template <typename DataType>
 void ThreadedDyscoColumn<DataType>::storeBlock() {
   // Put the data of the current block into the cache so that the parallell
   // threads can write them
+  // All rows of a block are encoded, including those that were not set
+  if (areOffsetsInitialized())
+    _timeBlockBuffer->FillMissingRows(nRowsInBlock());
   std::unique_lock<std::mutex> lock(_mutex);
   CacheItem *item = new CacheItem(std::move(_timeBlockBuffer));
   // Wait until there is space available AND the row to be written is not in the
diff --git a/timeblockbuffer.h b/timeblockbuffer.h
index 6888f2f..ac42c61 100644
--- a/timeblockbuffer.h
+++ b/timeblockbuffer.h
@@ -38,6 +38,21 @@ class TimeBlockBuffer {
       newRow.visibilities[i] = data[i];
   }
 
+  /**
+   * Make sure that the buffer has @p nRows rows and that all of them have
+   * values: rows that were never set become zero.
+   */
+  void FillMissingRows(size_t nRows) {
+    if (_data.size() < nRows) _data.resize(nRows);
+    for (DataRow &row : _data) {
+      if (row.visibilities.empty()) {
+        row.antenna1 = 0;
+        row.antenna2 = 0;
+        row.visibilities.assign(_nPol * _nChannels, data_t());
+      }
+    }
+  }
+
   /** True if values are available for the given row. */
   bool HasRow(size_t blockRow) const {
     return blockRow < _data.size() && !_data[blockRow].visibilities.empty();
-- 
2.43.0


From 178d7d8edd4e20e3fdb0ec2d6e26a646977e909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 05/25] fix: write buffered data on flush and report errors
 that occur while doing so

---
 dyscostman.cc          | 23 +++++++++++++++++++++--
 dyscostmancol.h        |  3 +++
 threadeddyscocolumn.cc | 20 ++++++++++++++++++++
 threadeddyscocolumn.h  |  2 ++
 4 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index a4783b7..29a4edf 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -6,6 +6,9 @@
 
 #include "header.h"
 
+#include <fcntl.h>
+#include <unistd.h>
+
 void register_dyscostman() { dyscostman::DyscoStMan::registerClass(); }
 
 namespace dyscostman {
@@ -159,8 +162,24 @@ void DyscoStMan::registerClass() {
   DataManager::registerCtor("DyscoStMan", makeObject);
 }
 
-casacore::Bool DyscoStMan::flush(casacore::AipsIO &,
-                                 casacore::Bool /*doFsync*/) {
+casacore::Bool DyscoStMan::flush(casacore::AipsIO &, casacore::Bool doFsync) {
+  for (std::unique_ptr<DyscoStManColumn> &col : _columns) col->flush();
+
+  std::lock_guard<std::mutex> lock(_mutex);
+  if (_fStream) {
+    _fStream->flush();
+    if (_fStream->fail())
+      throw DyscoStManError("I/O error: error while writing file '" +
+                            fileName() + "'");
+    if (doFsync) {
+      const int fd = ::open(fileName().c_str(), O_RDONLY);
+      const bool isSynced = fd >= 0 && fsync(fd) == 0;
+      if (fd >= 0) ::close(fd);
+      if (!isSynced)
+        throw DyscoStManError("I/O error: could not synchronize file '" +
+                              fileName() + "' with the storage device");
+    }
+  }
   return false;
 }
 
diff --git a/dyscostmancol.h b/dyscostmancol.h
index 9f76181..c9ad700 100644
--- a/dyscostmancol.h
+++ b/dyscostmancol.h
@@ -36,6 +36,9 @@ class DyscoStManColumn : public casacore::StManColumn {
   /** To be called before destructing the class. */
   virtual void shutdown() = 0;
 
+  /** Write all values that were put so far to the file. */
+  virtual void flush() = 0;
+
   /**
    * Whether this column is writable
    * @returns @c true
diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index df057a1..cd6254b 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -69,6 +69,26 @@ void ThreadedDyscoColumn<DataType>::stopThreads() {
   }
 }
 
+template <typename DataType>
+void ThreadedDyscoColumn<DataType>::flush() {
+  // Without knowing the block size, nothing can be written yet
+  if (!areOffsetsInitialized()) return;
+
+  if (_isCurrentBlockChanged) {
+    // Keep the current block, so that further changes to it do not have to start
+    // from the already compressed values.
+    std::unique_ptr<TimeBlockBuffer<data_t>> buffer(
+        new TimeBlockBuffer<data_t>(*_timeBlockBuffer));
+    const size_t blockIndex = _currentBlock;
+    storeBlock();
+    _timeBlockBuffer = std::move(buffer);
+    _currentBlock = blockIndex;
+  }
+
+  std::unique_lock<std::mutex> lock(_mutex);
+  while (!_cache.empty()) _cacheChangedCondition.wait(lock);
+}
+
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::setShapeColumn(
     const casacore::IPosition &shape) {
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index 208901f..5cf2f0c 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -152,6 +152,8 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
 
   virtual void shutdown() override final;
 
+  virtual void flush() override final;
+
   virtual size_t defaultThreadCount() const;
 
   size_t getBitsPerSymbol() const { return _bitsPerSymbol; }
-- 
2.43.0


From e9afbab8982b714c08dd687ca97a045da7a79967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 06/25] fix: write the header of a new file, so that a table
 without data can be opened

---
 dyscostman.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 29a4edf..7f5051d 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -192,6 +192,8 @@ void DyscoStMan::create(casacore::uInt nRow) {
     throw DyscoStManError("I/O error: could not create new file '" +
                           fileName() + "'");
   _nBlocksInFile = 0;
+  // A table without any data should be readable too
+  writeHeader();
 }
 
 void DyscoStMan::writeHeader() {
@@ -317,7 +319,7 @@ void DyscoStMan::open(casacore::uInt nRow, casacore::AipsIO &) {
   if (_fStream->fail())
     throw DyscoStManError("I/O error: error reading file '" + fileName());
   std::streampos size = _fStream->tellg();
-  if (size > _headerSize)
+  if (size > _headerSize && _blockSize != 0)
     _nBlocksInFile = (size_t(size) - _headerSize) / _blockSize;
   else
     _nBlocksInFile = 0;
-- 
2.43.0


From b1f22f4001d357cb6eed638b0ae103e534e60972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 07/25] fix: keep the last block when not all of its columns
 were written

---
 dyscostman.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 7f5051d..e1ef41e 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -320,7 +320,9 @@ void DyscoStMan::open(casacore::uInt nRow, casacore::AipsIO &) {
     throw DyscoStManError("I/O error: error reading file '" + fileName());
   std::streampos size = _fStream->tellg();
   if (size > _headerSize && _blockSize != 0)
-    _nBlocksInFile = (size_t(size) - _headerSize) / _blockSize;
+    // The last block is shorter when its last columns were not written
+    _nBlocksInFile =
+        (size_t(size) - _headerSize + _blockSize - 1) / _blockSize;
   else
     _nBlocksInFile = 0;
 }
-- 
2.43.0


From f0ac50186767679f24a815550e157d58ec9b1fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 08/25] fix: report read errors of the last block and recover
 from read errors

---
 dyscostman.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index e1ef41e..2b55bba 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -9,6 +9,8 @@
 #include <fcntl.h>
 #include <unistd.h>
 
+#include <algorithm>
+
 void register_dyscostman() { dyscostman::DyscoStMan::registerClass(); }
 
 namespace dyscostman {
@@ -443,12 +445,14 @@ void DyscoStMan::readCompressedData(size_t blockIndex,
   _fStream->seekg(fileOffset + columnOffset, std::ios_base::beg);
   _fStream->read(reinterpret_cast<char *>(dest), size);
   if (_fStream->fail()) {
-    // This can be sort of ok ; row exists because other columns have written
-    // here, but no data had been written yet for this column
-    if (blockIndex + 1 != _nBlocksInFile)
+    const bool isEndOfFile = _fStream->eof() && !_fStream->bad();
+    _fStream->clear();  // reset fail bit
+    // Reaching the end can be sort of ok ; row exists because other columns have
+    // written here, but no data had been written yet for this column
+    if (!isEndOfFile || blockIndex + 1 != _nBlocksInFile)
       throw DyscoStManError("I/O error: error while reading file '" +
                             fileName() + "'");
-    _fStream->clear();  // reset fail bit
+    std::fill_n(dest, size, 0);
   }
 }
 
-- 
2.43.0


From 7295816138da430ab4a95a45eb89c0c8b665567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 09/25] fix: accept the Student's t distribution name that is
 written in the specification

---
 dyscostman.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 2b55bba..7bf8194 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -90,7 +90,7 @@ void DyscoStMan::setFromSpec(const casacore::Record &spec) {
       _distribution = UniformDistribution;
     else if (str == "Gaussian")
       _distribution = GaussianDistribution;
-    else if (str == "StudentT")
+    else if (str == "StudentsT" || str == "StudentT")
       _distribution = StudentsTDistribution;
     else if (str == "TruncatedGaussian")
       _distribution = TruncatedGaussianDistribution;
-- 
2.43.0


From 70b2707c1d249ea51b4935f244bf0ecd4b396fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 10/25] fix: do not use uninitialized values when a file is too
 short

---
 serializable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serializable.h b/serializable.h
index 172885d..ecba3d5 100644
--- a/serializable.h
+++ b/serializable.h
@@ -124,7 +124,7 @@ class Serializable {
  private:
   template <typename T>
   static T Unserialize(std::istream &stream) {
-    T val;
+    T val{};
     stream.read(reinterpret_cast<char *>(&val), sizeof(val));
     return val;
   }
-- 
2.43.0


From 8948a7551ea2bd5d5699849296c0ccc422ca8ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:20 +0000
Subject: [PATCH 11/25] fix: keep the data of the other columns intact when a
 column is removed

---
 dyscostman.cc | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 dyscostman.h  |  6 ++++++
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 7bf8194..deacc42 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -426,8 +426,13 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
            _columns.begin();
        i != _columns.end(); ++i) {
     if (i->get() == column) {
+      // Finish all writing before changing the structure of the file
+      for (std::unique_ptr<DyscoStManColumn> &col : _columns) col->flush();
       _columns.erase(i);
-      writeHeader();
+      if (areOffsetsInitialized())
+        closeGap();
+      else
+        writeHeader();
       return;
     }
   }
@@ -435,6 +440,44 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
       "Trying to remove column that was not part of the storage manager");
 }
 
+void DyscoStMan::closeGap() {
+  std::lock_guard<std::mutex> lock(_mutex);
+  const size_t oldHeaderSize = _headerSize, oldBlockSize = _blockSize;
+  std::vector<size_t> oldOffsets, sizes;
+  _blockSize = 0;
+  for (std::unique_ptr<DyscoStManColumn> &col : _columns) {
+    oldOffsets.push_back(col->OffsetInBlock());
+    sizes.push_back(col->CalculateBlockSize(_rowsPerBlock, _antennaCount));
+    col->SetOffsetInBlock(_blockSize);
+    _blockSize += sizes.back();
+  }
+  writeHeader();
+
+  // All data moves towards the start of the file, hence by moving it in order no
+  // data is overwritten that still has to be moved.
+  std::vector<char> buffer(_blockSize);
+  for (size_t block = 0; block != _nBlocksInFile; ++block) {
+    for (size_t i = 0; i != _columns.size(); ++i) {
+      _fStream->seekg(oldHeaderSize + block * oldBlockSize + oldOffsets[i],
+                      std::ios_base::beg);
+      _fStream->read(buffer.data(), sizes[i]);
+      if (_fStream->eof() && !_fStream->bad()) {
+        // Not all columns of the last block have to be present
+        std::fill(buffer.begin() + _fStream->gcount(), buffer.end(), 0);
+        _fStream->clear();
+      }
+      _fStream->seekp(getFileOffset(block) + _columns[i]->OffsetInBlock(),
+                      std::ios_base::beg);
+      _fStream->write(buffer.data(), sizes[i]);
+    }
+  }
+  _fStream->flush();
+  if (_fStream->fail() ||
+      truncate(fileName().c_str(), getFileOffset(_nBlocksInFile)) != 0)
+    throw DyscoStManError("I/O error: error while writing file '" + fileName() +
+                          "'");
+}
+
 void DyscoStMan::readCompressedData(size_t blockIndex,
                                     const DyscoStManColumn *column,
                                     unsigned char *dest, size_t size) {
diff --git a/dyscostman.h b/dyscostman.h
index f5f46ce..7cf67ea 100644
--- a/dyscostman.h
+++ b/dyscostman.h
@@ -319,6 +319,12 @@ class DyscoStMan : public casacore::DataManager {
 
   void writeHeader();
 
+  /**
+   * Rewrite the header and move the data in the file such that both match the
+   * current columns, after a column has been removed.
+   */
+  void closeGap();
+
   void makeEmpty();
 
   void setFromSpec(const casacore::Record &spec);
-- 
2.43.0


From 045e17c1ff425f470e01cacb9cccf728dad72846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:46 +0000
Subject: [PATCH 12/25] fix: keep the block and a valid buffer when storing it
 runs out of memory or threads

storeBlock() moved the buffer into the cache before it allocated the next one,
so a failing allocation left a null buffer, on which closing the table crashed.
Waiting for the cache now also fails when no threads run that could empty it.
---
 threadeddyscocolumn.cc | 34 +++++++++++++++++++++++++---------
 threadeddyscocolumn.h  |  1 +
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index cd6254b..66b8083 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -86,7 +86,18 @@ void ThreadedDyscoColumn<DataType>::flush() {
   }
 
   std::unique_lock<std::mutex> lock(_mutex);
-  while (!_cache.empty()) _cacheChangedCondition.wait(lock);
+  while (!_cache.empty()) waitForCacheChange(lock);
+}
+
+// Should only be called with a locked mutex
+template <typename DataType>
+void ThreadedDyscoColumn<DataType>::waitForCacheChange(
+    std::unique_lock<std::mutex> &lock) {
+  if (_threadGroup.empty())
+    throw DyscoStManError(
+        "Stored data can not be written, because the threads that should write "
+        "it could not be started");
+  _cacheChangedCondition.wait(lock);
 }
 
 template <typename DataType>
@@ -101,7 +112,7 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
   // stored before, in which case its data has to be written before it is read.
   std::unique_lock<std::mutex> lock(_mutex);
   while (_cache.find(blockIndex) != _cache.end())
-    _cacheChangedCondition.wait(lock);
+    waitForCacheChange(lock);
   lock.unlock();
 
   if (blockIndex < nBlocksInFile()) {
@@ -149,7 +160,7 @@ void ThreadedDyscoColumn<DataType>::getValues(
       // Wait until the block to be read is not in the write cache
       std::unique_lock<std::mutex> lock(_mutex);
       while (_cache.find(blockIndex) != _cache.end())
-        _cacheChangedCondition.wait(lock);
+        waitForCacheChange(lock);
       lock.unlock();
 
       isInBuffer = blockIndex < nBlocksInFile();
@@ -181,25 +192,30 @@ void ThreadedDyscoColumn<DataType>::storeBlock() {
   // All rows of a block are encoded, including those that were not set
   if (areOffsetsInitialized())
     _timeBlockBuffer->FillMissingRows(nRowsInBlock());
+  // Do all allocations before the buffer is moved away, such that the block is
+  // not lost and a valid buffer remains when one of them fails.
+  const size_t nPolarizations = _shape[0], nChannels = _shape[1];
+  std::unique_ptr<TimeBlockBuffer<data_t>> newBuffer(
+      new TimeBlockBuffer<data_t>(nPolarizations, nChannels));
+  std::unique_ptr<CacheItem> item(new CacheItem(nullptr));
   std::unique_lock<std::mutex> lock(_mutex);
-  CacheItem *item = new CacheItem(std::move(_timeBlockBuffer));
   // Wait until there is space available AND the row to be written is not in the
   // cache
   typename cache_t::iterator cacheItemPtr = _cache.find(_currentBlock);
   while (_cache.size() >= maxCacheSize() || cacheItemPtr != _cache.end()) {
-    _cacheChangedCondition.wait(lock);
+    waitForCacheChange(lock);
     cacheItemPtr = _cache.find(_currentBlock);
   }
-  _cache.insert(typename cache_t::value_type(_currentBlock, item));
+  _cache.insert(typename cache_t::value_type(_currentBlock, item.get()));
+  item->encoder = std::move(_timeBlockBuffer);
+  item.release();
   _cacheChangedCondition.notify_all();
   lock.unlock();
 
   _isCurrentBlockChanged = false;
   // The buffer no longer holds a block, also when loading the next block fails.
   _currentBlock = std::numeric_limits<size_t>::max();
-  const size_t nPolarizations = _shape[0], nChannels = _shape[1];
-  _timeBlockBuffer.reset(
-      new TimeBlockBuffer<data_t>(nPolarizations, nChannels));
+  _timeBlockBuffer = std::move(newBuffer);
   //_timeBlockBuffer->SetNAntennae(_antennaCount);
 }
 
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index 5cf2f0c..2debc68 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -200,6 +200,7 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
                       unsigned char *packedSymbolBuffer,
                       unsigned int *unpackedSymbolBuffer,
                       ThreadDataBase *threadUserData);
+  void waitForCacheChange(std::unique_lock<std::mutex> &lock);
   bool isWriteItemAvailable(typename cache_t::iterator &i);
   void loadBlock(size_t blockIndex);
   void storeBlock();
-- 
2.43.0


From a6175806a91e77046bf0480a3fa4f38ba5341f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:47 +0000
Subject: [PATCH 13/25] fix: do not use a partly loaded block after loading it
 failed

An exception halfway loadBlock() left the previous block index set while the
buffer was already partly overwritten, so later reads returned wrong values.
---
 threadeddyscocolumn.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 66b8083..a752aec 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -115,6 +115,9 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
     waitForCacheChange(lock);
   lock.unlock();
 
+  // The buffer holds no (complete) block when one of the next steps fails.
+  _currentBlock = std::numeric_limits<size_t>::max();
+  _isCurrentBlockChanged = false;
   if (blockIndex < nBlocksInFile()) {
     readCompressedData(blockIndex, _packedBlockReadBuffer.data(), _blockSize);
     const size_t nPolarizations = _shape[0], nChannels = _shape[1],
@@ -145,7 +148,6 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
     _timeBlockBuffer->ResetData();
   }
   _currentBlock = blockIndex;
-  _isCurrentBlockChanged = false;
 }
 
 template <typename DataType>
-- 
2.43.0


From ca6be478d364e98788c694327c5ec8e9bb90504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:56 +0000
Subject: [PATCH 14/25] fix: do not write data again at a wrong position after
 a failed write

A buffered stream keeps the data of a failed write, and the next operation wrote
it again from the position after the part that had been written, over the data
of other columns. Use an unbuffered stream and write the header at once.
---
 dyscostman.cc | 29 ++++++++++++++++++++---------
 dyscostman.h  |  2 ++
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index deacc42..ca1c63f 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -10,6 +10,7 @@
 #include <unistd.h>
 
 #include <algorithm>
+#include <sstream>
 
 void register_dyscostman() { dyscostman::DyscoStMan::registerClass(); }
 
@@ -185,11 +186,18 @@ casacore::Bool DyscoStMan::flush(casacore::AipsIO &, casacore::Bool doFsync) {
   return false;
 }
 
+void DyscoStMan::openStream(std::ios_base::openmode mode) {
+  // The stream is not buffered: blocks are transferred as a whole. With a buffer,
+  // data that could not be written would stay in the buffer and be written at a
+  // wrong position by one of the next operations.
+  _fStream.reset(new std::fstream());
+  _fStream->rdbuf()->pubsetbuf(nullptr, 0);
+  _fStream->open(fileName().c_str(), mode);
+}
+
 void DyscoStMan::create(casacore::uInt nRow) {
   _nRow = nRow;
-  _fStream.reset(new std::fstream(
-      fileName().c_str(),
-      std::ios_base::in | std::ios_base::out | std::ios_base::trunc));
+  openStream(std::ios_base::in | std::ios_base::out | std::ios_base::trunc);
   if (_fStream->fail())
     throw DyscoStManError("I/O error: could not create new file '" +
                           fileName() + "'");
@@ -221,14 +229,18 @@ void DyscoStMan::writeHeader() {
     _headerSize += sizeof(GenericColumnHeader) + col->ExtraHeaderSize();
   header.headerSize = _headerSize;
 
-  header.Serialize(*_fStream);
+  // The header is written in one go
+  std::ostringstream stream;
+  header.Serialize(stream);
 
   for (std::unique_ptr<DyscoStManColumn> &col : _columns) {
     GenericColumnHeader cHeader;
     cHeader.columnHeaderSize = cHeader.calculateSize() + col->ExtraHeaderSize();
-    cHeader.Serialize(*_fStream);
-    col->SerializeExtraHeader(*_fStream);
+    cHeader.Serialize(stream);
+    col->SerializeExtraHeader(stream);
   }
+  const std::string headerData = stream.str();
+  _fStream->write(headerData.data(), headerData.size());
   if (_fStream->fail())
     throw DyscoStManError("I/O error: could not write to file");
 }
@@ -306,10 +318,9 @@ void DyscoStMan::initializeRowsPerBlock(size_t rowsPerBlock,
 
 void DyscoStMan::open(casacore::uInt nRow, casacore::AipsIO &) {
   _nRow = nRow;
-  _fStream.reset(new std::fstream(fileName().c_str(),
-                                  std::ios_base::in | std::ios_base::out));
+  openStream(std::ios_base::in | std::ios_base::out);
   if (_fStream->fail()) {
-    _fStream.reset(new std::fstream(fileName().c_str(), std::ios_base::in));
+    openStream(std::ios_base::in);
     if (_fStream->fail())
       throw DyscoStManError("I/O error: could not open file '" + fileName() +
                             "', which should be an existing file");
diff --git a/dyscostman.h b/dyscostman.h
index 7cf67ea..83158d6 100644
--- a/dyscostman.h
+++ b/dyscostman.h
@@ -317,6 +317,8 @@ class DyscoStMan : public casacore::DataManager {
 
   void readHeader();
 
+  void openStream(std::ios_base::openmode mode);
+
   void writeHeader();
 
   /**
-- 
2.43.0


From b3b39dff1ded4feea2cc3d5af5a910b518a472c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:51 +0000
Subject: [PATCH 15/25] fix: do not read past the end when a timestep has more
 baselines than the first

---
 dscompress.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dscompress.cc b/dscompress.cc
index 2963dde..9e4afda 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -294,6 +294,15 @@ int main(int argc, char *argv[]) {
       }
       if (blockNumber == 0) {
         antennasInBlock.push_back(std::make_pair(antenna1, antenna2));
+      } else if (blockOffset >= antennasInBlock.size()) {
+        std::ostringstream msg;
+        msg << "This measurement set is not 'regular'; at table row " << row
+            << ", timeblock index " << blockNumber
+            << " the timeblock has more baselines than previous timeblocks ("
+            << antennasInBlock.size()
+            << "). In other words, not all timesteps had the same baselines. "
+               "This is required to be able to compress with Dysco.";
+        throw std::runtime_error(msg.str());
       } else {
         if (antennasInBlock[blockOffset].first != antenna1 ||
             antennasInBlock[blockOffset].second != antenna2) {
-- 
2.43.0


From a4d192a7389f3972dbb4827a89424220aaf8c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:51 +0000
Subject: [PATCH 16/25] fix: decompress measurement sets that do not have all
 columns

---
 stmanmodifier.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stmanmodifier.h b/stmanmodifier.h
index e9bd49d..72f85ab 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -44,10 +44,14 @@ class StManModifier {
    * @param columnName Name of column.
    * @param isWeight true if a weight (float) column should be created, or false
    * to create a complex column.
-   * @returns @c true if the storage manager was changed.
+   * @returns @c true if the storage manager was changed, @c false if the column
+   * is not compressed or does not exist.
    */
   bool InitColumnWithDefaultStMan(const std::string &columnName,
                                   bool isWeight) {
+    // Not all measurement sets have all columns
+    if (!_ms.tableDesc().isColumn(columnName)) return false;
+
     std::string dataManager;
     if (isWeight)
       dataManager = GetStorageManager<float>(columnName);
-- 
2.43.0


From c56a06f8a2178b0958ffdaf3a454b7628703a23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:05 +0000
Subject: [PATCH 17/25] fix: refuse to add a column when values still have to
 be written

---
 dyscostman.cc         | 7 ++++++-
 dyscostmancol.h       | 3 +++
 threadeddyscocolumn.h | 7 ++++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index ca1c63f..1e83d80 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -424,7 +424,12 @@ void DyscoStMan::removeRow(casacore::uInt rowNr) {
 }
 
 void DyscoStMan::addColumn(casacore::DataManagerColumn * /*column*/) {
-  if (_nBlocksInFile != 0)
+  // Values that still have to be written count as data, too. The file is checked
+  // last, because blocks might be written in the meantime.
+  bool hasData = false;
+  for (std::unique_ptr<DyscoStManColumn> &col : _columns)
+    hasData = col->HasUnwrittenData() || hasData;
+  if (hasData || nBlocksInFile() != 0)
     throw DyscoStManError(
         "Can't add columns while data has been committed to table");
 
diff --git a/dyscostmancol.h b/dyscostmancol.h
index c9ad700..f385f20 100644
--- a/dyscostmancol.h
+++ b/dyscostmancol.h
@@ -39,6 +39,9 @@ class DyscoStManColumn : public casacore::StManColumn {
   /** Write all values that were put so far to the file. */
   virtual void flush() = 0;
 
+  /** Whether values were put that are not (completely) written to the file. */
+  virtual bool HasUnwrittenData() const = 0;
+
   /**
    * Whether this column is writable
    * @returns @c true
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index 2debc68..bc5a5d9 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -154,6 +154,11 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
 
   virtual void flush() override final;
 
+  virtual bool HasUnwrittenData() const override final {
+    std::lock_guard<std::mutex> lock(_mutex);
+    return _isCurrentBlockChanged || !_cache.empty();
+  }
+
   virtual size_t defaultThreadCount() const;
 
   size_t getBitsPerSymbol() const { return _bitsPerSymbol; }
@@ -219,7 +224,7 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
   aocommon::UVector<unsigned int> _unpackedSymbolReadBuffer;
   cache_t _cache;
   bool _stopThreads;
-  std::mutex _mutex;
+  mutable std::mutex _mutex;
   threadgroup _threadGroup;
   std::condition_variable _cacheChangedCondition;
   size_t _currentBlock;
-- 
2.43.0


From aac375374a5c7fffbcbe5cf53d7841fa799067d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:59 +0000
Subject: [PATCH 18/25] fix: rows that are removed and added again are unset

---
 dyscostman.cc          |  3 +++
 dyscostmancol.h        |  3 +++
 threadeddyscocolumn.cc | 19 +++++++++++++++++++
 threadeddyscocolumn.h  |  2 ++
 4 files changed, 27 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index 1e83d80..b7ea2d8 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -421,6 +421,9 @@ void DyscoStMan::removeRow(casacore::uInt rowNr) {
         "Trying to remove a row in the middle of the file: "
         "the DyscoStMan does not support this");
   _nRow--;
+  // The row might be added again, and is unset then
+  for (std::unique_ptr<DyscoStManColumn> &col : _columns)
+    col->RemoveLastRow(rowNr);
 }
 
 void DyscoStMan::addColumn(casacore::DataManagerColumn * /*column*/) {
diff --git a/dyscostmancol.h b/dyscostmancol.h
index f385f20..c8e2780 100644
--- a/dyscostmancol.h
+++ b/dyscostmancol.h
@@ -42,6 +42,9 @@ class DyscoStManColumn : public casacore::StManColumn {
   /** Whether values were put that are not (completely) written to the file. */
   virtual bool HasUnwrittenData() const = 0;
 
+  /** Make a row unset that was just removed from the end of the table. */
+  virtual void RemoveLastRow(uint64_t row) = 0;
+
   /**
    * Whether this column is writable
    * @returns @c true
diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index a752aec..0c97d84 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -273,6 +273,25 @@ void ThreadedDyscoColumn<DataType>::putValues(
   dataArr->freeStorage (dataPtr, deleteIt);
 }
 
+template <typename DataType>
+void ThreadedDyscoColumn<DataType>::RemoveLastRow(uint64_t row) {
+  if (areOffsetsInitialized()) {
+    const size_t blockIndex = getBlockIndex(row),
+                 blockRow = getRowWithinBlock(row);
+    if (blockIndex != _currentBlock) {
+      if (_isCurrentBlockChanged) storeBlock();
+      loadBlock(blockIndex);
+    }
+    if (blockIndex < nBlocksInFile() || _timeBlockBuffer->HasRow(blockRow)) {
+      _timeBlockBuffer->resize(std::min(_timeBlockBuffer->NRows(), blockRow));
+      _isCurrentBlockChanged = true;
+    }
+  } else if (_timeBlockBuffer->HasRow(row)) {
+    _timeBlockBuffer->resize(row);
+    _isCurrentBlockChanged = !_timeBlockBuffer->Empty();
+  }
+}
+
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::Prepare(DyscoDistribution, Normalization,
                                             double /*studentsTNu*/,
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index bc5a5d9..fcd469a 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -154,6 +154,8 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
 
   virtual void flush() override final;
 
+  virtual void RemoveLastRow(uint64_t row) override final;
+
   virtual bool HasUnwrittenData() const override final {
     std::lock_guard<std::mutex> lock(_mutex);
     return _isCurrentBlockChanged || !_cache.empty();
-- 
2.43.0


From 750bbc6e334285bbe0e892a1dfe4501e34bf6f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:26 +0000
Subject: [PATCH 19/25] fix: refuse antennae that have no AF factor instead of
 accessing memory out of bounds

With AF normalization, the factors are stored for the antennae that occur in
the first block. A row of a later block with another antenna made the encoder
and decoder access memory outside of their arrays. Refuse such rows.
---
 dyscodatacolumn.h      |  4 ++++
 threadeddyscocolumn.cc | 20 ++++++++++++++++++++
 threadeddyscocolumn.h  |  4 ++++
 3 files changed, 28 insertions(+)

diff --git a/dyscodatacolumn.h b/dyscodatacolumn.h
index 7c310a7..96bc829 100644
--- a/dyscodatacolumn.h
+++ b/dyscodatacolumn.h
@@ -70,6 +70,10 @@ class DyscoDataColumn final : public ThreadedDyscoColumn<std::complex<float>> {
 
   virtual size_t defaultThreadCount() const override;
 
+  virtual bool UsesAntennaFactors() const override {
+    return _normalization == Normalization::kAF;
+  }
+
  private:
   struct ThreadData final : public ThreadDataBase {
     ThreadData(std::unique_ptr<TimeBlockEncoder> timeBlockEncoder)
diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 0c97d84..b6efdd5 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -11,6 +11,7 @@
 
 #include <algorithm>
 #include <limits>
+#include <string>
 
 namespace dyscostman {
 
@@ -106,6 +107,23 @@ void ThreadedDyscoColumn<DataType>::setShapeColumn(
   _shape = shape;
 }
 
+// There are only factors for the antennae that occur in the first block
+template <typename DataType>
+void ThreadedDyscoColumn<DataType>::checkAntennae(casacore::uInt rowNr,
+                                                  int ant1, int ant2) const {
+  // As long as the first block is not complete, only negative values are wrong
+  const size_t antennaCount = areOffsetsInitialized()
+                                  ? _antennaCount
+                                  : std::numeric_limits<size_t>::max();
+  if (UsesAntennaFactors() &&
+      (ant1 < 0 || ant2 < 0 || size_t(ant1) >= antennaCount ||
+       size_t(ant2) >= antennaCount))
+    throw DyscoStManError(
+        "Row " + std::to_string(rowNr) +
+        " has an antenna that does not occur in the first block: with the AF "
+        "normalization, this is not possible");
+}
+
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
   // Wait until the block is not in the write cache anymore: it might have been
@@ -140,6 +158,7 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
     for (size_t blockRow = 0; blockRow != nDecodeRows; ++blockRow) {
       int a1 = (*_ant1Col)(startRow + blockRow),
           a2 = (*_ant2Col)(startRow + blockRow);
+      checkAntennae(startRow + blockRow, a1, a2);
       decode(_timeBlockBuffer.get(), _unpackedSymbolReadBuffer.data(), blockRow,
              a1, a2);
     }
@@ -254,6 +273,7 @@ void ThreadedDyscoColumn<DataType>::putValues(
   }
 
   const int ant1 = (*_ant1Col)(rowNr), ant2 = (*_ant2Col)(rowNr);
+  checkAntennae(rowNr, ant1, ant2);
   if (areOffsetsInitialized()) {
     const size_t blockIndex = getBlockIndex(rowNr),
                  blockRow = getRowWithinBlock(rowNr);
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index fcd469a..bbfdfaa 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -163,6 +163,9 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
 
   virtual size_t defaultThreadCount() const;
 
+  /** True if values are stored relative to a factor for each antenna. */
+  virtual bool UsesAntennaFactors() const { return false; }
+
   size_t getBitsPerSymbol() const { return _bitsPerSymbol; }
 
   const casacore::IPosition &shape() const { return _shape; }
@@ -210,6 +213,7 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
   void waitForCacheChange(std::unique_lock<std::mutex> &lock);
   bool isWriteItemAvailable(typename cache_t::iterator &i);
   void loadBlock(size_t blockIndex);
+  void checkAntennae(casacore::uInt rowNr, int ant1, int ant2) const;
   void storeBlock();
   size_t maxCacheSize() const {
     return ThreadedDyscoColumn::defaultThreadCount() * 12 / 10 + 1;
-- 
2.43.0


From 7d1f17e1595b9b2214f8d45c9fa4f6be299a6159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:11 +0000
Subject: [PATCH 20/25] fix: keep auto-correlations finite when there are no
 cross-correlations

With the AF normalization and without any unflagged, non-zero
cross-correlation, the antenna factors decreased to 1e-70 and the
auto-correlations were divided by their product. The result does not fit in
a float, so finite values were read back as NaN.
---
 aftimeblockencoder.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/aftimeblockencoder.cc b/aftimeblockencoder.cc
index 81afe09..f7b8a2a 100644
--- a/aftimeblockencoder.cc
+++ b/aftimeblockencoder.cc
@@ -1,5 +1,6 @@
 #include "aftimeblockencoder.h"
 
+#include <algorithm>
 #include <random>
 
 namespace {
@@ -383,6 +384,15 @@ void AFTimeBlockEncoder::calculateAntennaeRMS(
         nextRMS[i] /= weightSum;
     }
 
+    // Without any (non-zero) cross-correlations, there is nothing to determine the
+    // antenna factors from. They should then not become infinitely small, because
+    // the auto-correlations are divided by them.
+    if (std::all_of(nextRMS.begin(), nextRMS.end(),
+                    [](double rms) { return rms == 0.0; })) {
+      for (size_t i = 0; i != antennaCount; ++i) _rmsPerAntenna[i] = 1.0;
+      break;
+    }
+
     double maxVal = 0.0;
     for (size_t i = 0; i != antennaCount; ++i) {
       _rmsPerAntenna[i] = nextRMS[i] * 0.8 + _rmsPerAntenna[i] * 0.2;
-- 
2.43.0


From 2cd68a511d320725a44a884bf9ddbe81af66ace6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:18:04 +0000
Subject: [PATCH 21/25] fix: refuse settings with which nothing can be stored

---
 bytepacker.h  | 19 +++++++++++++++++++
 dscompress.cc |  5 +++++
 dyscostman.cc | 41 +++++++++++++++++++++++++++++++++++++++++
 dyscostman.h  | 15 +++++++++++++++
 4 files changed, 80 insertions(+)

diff --git a/bytepacker.h b/bytepacker.h
index 4f0189a..b5f8fc7 100644
--- a/bytepacker.h
+++ b/bytepacker.h
@@ -145,6 +145,25 @@ class BytePacker {
   static void unpack16(unsigned *symbolBuffer, unsigned char *packedBuffer,
                        size_t symbolCount);
 
+  /**
+   * Whether symbols with the given bit count can be packed.
+   */
+  static bool IsSupported(unsigned bitCount) {
+    switch (bitCount) {
+      case 2:
+      case 3:
+      case 4:
+      case 6:
+      case 8:
+      case 10:
+      case 12:
+      case 16:
+        return true;
+      default:
+        return false;
+    }
+  }
+
   static size_t bufferSize(size_t nSymbols, size_t nBits) {
     return (nSymbols * nBits + 7) / 8;
   }
diff --git a/dscompress.cc b/dscompress.cc
index 9e4afda..bd1f386 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -178,6 +178,11 @@ int main(int argc, char *argv[]) {
     ++argi;
   }
 
+  // Do this before the measurement set is changed
+  DyscoStMan::CheckDataSettings(bitsPerFloat, distribution, 1.0,
+                                distributionTruncation);
+  DyscoStMan::CheckWeightSettings(bitsPerWeight);
+
   if (columnNames.empty()) columnNames.push_back("DATA");
   std::string msPath = argv[argi];
 
diff --git a/dyscostman.cc b/dyscostman.cc
index b7ea2d8..5403ba3 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -1,4 +1,5 @@
 #include "dyscostman.h"
+#include "bytepacker.h"
 #include "dyscodatacolumn.h"
 #include "dyscostmancol.h"
 #include "dyscostmanerror.h"
@@ -384,6 +385,38 @@ void DyscoStMan::resync(casacore::uInt /*nRow*/) {}
 
 void DyscoStMan::deleteManager() { unlink(fileName().c_str()); }
 
+void DyscoStMan::CheckDataSettings(unsigned dataBitCount,
+                                   DyscoDistribution distribution,
+                                   double studentTNu,
+                                   double distributionTruncation) {
+  if (!BytePacker::IsSupported(dataBitCount)) {
+    std::ostringstream s;
+    s << "Unsupported data bit rate: " << dataBitCount;
+    throw DyscoStManError(s.str());
+  }
+  if (distribution == StudentsTDistribution && !(studentTNu > 0.0)) {
+    std::ostringstream s;
+    s << "Invalid degrees of freedom for the Student T distribution: "
+      << studentTNu;
+    throw DyscoStManError(s.str());
+  }
+  if (distribution == TruncatedGaussianDistribution &&
+      !(distributionTruncation > 0.0)) {
+    std::ostringstream s;
+    s << "Invalid truncation for the truncated Gaussian distribution: "
+      << distributionTruncation;
+    throw DyscoStManError(s.str());
+  }
+}
+
+void DyscoStMan::CheckWeightSettings(unsigned weightBitCount) {
+  if (!BytePacker::IsSupported(weightBitCount)) {
+    std::ostringstream s;
+    s << "Unsupported weight bit rate: " << weightBitCount;
+    throw DyscoStManError(s.str());
+  }
+}
+
 void DyscoStMan::prepare() {
   std::lock_guard<std::mutex> lock(_mutex);
 
@@ -392,6 +425,14 @@ void DyscoStMan::prepare() {
         "One of the required parameters of the DyscoStMan was not "
         "set!\nDyscoStMan was not correctly initialized by your program.");
 
+  for (std::unique_ptr<DyscoStManColumn> &col : _columns) {
+    if (dynamic_cast<DyscoWeightColumn *>(col.get()))
+      CheckWeightSettings(_weightBitCount);
+    else
+      CheckDataSettings(_dataBitCount, _distribution, _studentTNu,
+                        _distributionTruncation);
+  }
+
   for (std::unique_ptr<DyscoStManColumn> &col : _columns) {
     DyscoDataColumn *dataCol = dynamic_cast<DyscoDataColumn *>(col.get());
     if (dataCol)
diff --git a/dyscostman.h b/dyscostman.h
index 83158d6..37ca2aa 100644
--- a/dyscostman.h
+++ b/dyscostman.h
@@ -124,6 +124,21 @@ class DyscoStMan : public casacore::DataManager {
 
   void SetStaticSeed(bool staticSeed) { _staticSeed = staticSeed; }
 
+  /**
+   * Throws a DyscoStManError if visibilities can not be stored with the given
+   * settings. This is also checked when a column is added.
+   */
+  static void CheckDataSettings(unsigned dataBitCount,
+                                DyscoDistribution distribution,
+                                double studentTNu,
+                                double distributionTruncation);
+
+  /**
+   * Throws a DyscoStManError if weights can not be stored with the given
+   * bit rate. This is also checked when a column is added.
+   */
+  static void CheckWeightSettings(unsigned weightBitCount);
+
   /**
    * This constructor is called by Casa when it needs to create a DyscoStMan.
    * Casa will call makeObject() that will call this constructor.
-- 
2.43.0


From cb12cea3f4345bfe89d1a9f471c6bd57408074d1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:28:30 +0000
Subject: [PATCH 22/25] fix: allow removing a column of which the first block
 is incomplete

---
 dyscostman.cc         | 7 ++++++-
 dyscostmancol.h       | 7 +++++++
 threadeddyscocolumn.h | 4 ++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 5403ba3..873e01a 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -383,7 +383,11 @@ casacore::DataManagerColumn *DyscoStMan::makeIndArrColumn(
 
 void DyscoStMan::resync(casacore::uInt /*nRow*/) {}
 
-void DyscoStMan::deleteManager() { unlink(fileName().c_str()); }
+void DyscoStMan::deleteManager() {
+  for (std::unique_ptr<DyscoStManColumn> &col : _columns)
+    col->DiscardUnplacedData();
+  unlink(fileName().c_str());
+}
 
 void DyscoStMan::CheckDataSettings(unsigned dataBitCount,
                                    DyscoDistribution distribution,
@@ -488,6 +492,7 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
     if (i->get() == column) {
       // Finish all writing before changing the structure of the file
       for (std::unique_ptr<DyscoStManColumn> &col : _columns) col->flush();
+      (*i)->DiscardUnplacedData();
       _columns.erase(i);
       if (areOffsetsInitialized())
         closeGap();
diff --git a/dyscostmancol.h b/dyscostmancol.h
index c8e2780..6f462c1 100644
--- a/dyscostmancol.h
+++ b/dyscostmancol.h
@@ -42,6 +42,13 @@ class DyscoStManColumn : public casacore::StManColumn {
   /** Whether values were put that are not (completely) written to the file. */
   virtual bool HasUnwrittenData() const = 0;
 
+  /**
+   * Forget the values of which the place in the file is not known yet, i.e.
+   * those of an incomplete first block. To be called before the column is
+   * removed.
+   */
+  virtual void DiscardUnplacedData() = 0;
+
   /** Make a row unset that was just removed from the end of the table. */
   virtual void RemoveLastRow(uint64_t row) = 0;
 
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index bbfdfaa..afdef57 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -156,6 +156,10 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
 
   virtual void RemoveLastRow(uint64_t row) override final;
 
+  virtual void DiscardUnplacedData() override final {
+    if (!areOffsetsInitialized()) _isCurrentBlockChanged = false;
+  }
+
   virtual bool HasUnwrittenData() const override final {
     std::lock_guard<std::mutex> lock(_mutex);
     return _isCurrentBlockChanged || !_cache.empty();
-- 
2.43.0


From 8a7ed76eae078b6d6ec69df94e967d2eeedf32e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:19 +0000
Subject: [PATCH 23/25] fix: leave the measurement set as it was when
 dscompress refuses it

A request that is refused left flagged values replaced by NaNs and columns
renamed to TEMP_. Check the columns and the ordering first, and undo the
renaming when the new columns cannot be created.
---
 dscompress.cc   | 107 +++++++++++++++++++++++++++++-------------------
 stmanmodifier.h |  24 +++++++++++
 2 files changed, 90 insertions(+), 41 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index bd1f386..c3cbd84 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -232,33 +232,15 @@ int main(int argc, char *argv[]) {
       new casacore::Table(msPath, casacore::Table::Update));
 
   Stopwatch watch(true);
-  std::cout << "Replacing flagged values by NaNs...\n";
+  // Make sure all columns can be accessed before changing anything
   for (const std::string &columnName : columnNames) {
-    if (columnName != "WEIGHT_SPECTRUM") {
+    if (columnName == "WEIGHT_SPECTRUM") {
+      casacore::ArrayColumn<float> weightCol(*ms, columnName);
+    } else {
       casacore::ArrayColumn<std::complex<float>> dataCol(*ms, columnName);
       casacore::ArrayColumn<bool> flagCol(*ms, "FLAG");
-      casacore::Array<std::complex<float>> dataArr(dataCol.shape(0));
-      casacore::Array<bool> flagArr(flagCol.shape(0));
-      for (size_t row = 0; row != ms->nrow(); ++row) {
-        dataCol.get(row, dataArr);
-        flagCol.get(row, flagArr);
-        casacore::Array<bool>::contiter f = flagArr.cbegin();
-        bool isChanged = false;
-        for (casacore::Array<std::complex<float>>::contiter d =
-                 dataArr.cbegin();
-             d != dataArr.cend(); ++d) {
-          if (*f) {
-            *d = std::complex<float>(std::numeric_limits<float>::quiet_NaN(),
-                                     std::numeric_limits<float>::quiet_NaN());
-            isChanged = true;
-          }
-          ++f;
-        }
-        if (isChanged) dataCol.put(row, dataArr);
-      }
     }
   }
-  std::cout << "Time taken: " << watch.ToString() << '\n';
 
   if (doCheckMSFormat) {
     std::cout << "Validating MS ordering...\n";
@@ -345,30 +327,73 @@ int main(int argc, char *argv[]) {
 
   StManModifier modifier(*ms);
 
-  casacore::IPosition shape;
   bool isDataReplaced = false;
-  for (std::string columnName : columnNames) {
-    bool replaced;
-    if (columnName == "WEIGHT_SPECTRUM")
-      replaced = modifier.PrepareReplacingColumn<float>(
-          columnName, "DyscoStMan", bitsPerFloat, bitsPerWeight, shape);
-    else
-      replaced = modifier.PrepareReplacingColumn<casacore::Complex>(
-          columnName, "DyscoStMan", bitsPerFloat, bitsPerWeight, shape);
-    isDataReplaced = replaced || isDataReplaced;
-  }
-
-  if (isDataReplaced) {
+  try {
+    casacore::IPosition shape;
     for (std::string columnName : columnNames) {
+      bool replaced;
       if (columnName == "WEIGHT_SPECTRUM")
-        createDyscoStManColumn<float>(
-            *ms, columnName, shape, bitsPerFloat, bitsPerWeight, normalization,
-            distribution, 1.0, distributionTruncation, staticSeed);
+        replaced = modifier.PrepareReplacingColumn<float>(
+            columnName, "DyscoStMan", bitsPerFloat, bitsPerWeight, shape);
       else
-        createDyscoStManColumn<casacore::Complex>(
-            *ms, columnName, shape, bitsPerFloat, bitsPerWeight, normalization,
-            distribution, 1.0, distributionTruncation, staticSeed);
+        replaced = modifier.PrepareReplacingColumn<casacore::Complex>(
+            columnName, "DyscoStMan", bitsPerFloat, bitsPerWeight, shape);
+      isDataReplaced = replaced || isDataReplaced;
+    }
+
+    if (isDataReplaced) {
+      for (std::string columnName : columnNames) {
+        if (columnName == "WEIGHT_SPECTRUM")
+          createDyscoStManColumn<float>(
+              *ms, columnName, shape, bitsPerFloat, bitsPerWeight,
+              normalization, distribution, 1.0, distributionTruncation,
+              staticSeed);
+        else
+          createDyscoStManColumn<casacore::Complex>(
+              *ms, columnName, shape, bitsPerFloat, bitsPerWeight,
+              normalization, distribution, 1.0, distributionTruncation,
+              staticSeed);
+      }
+    }
+  } catch (std::exception &) {
+    for (std::string columnName : columnNames)
+      modifier.UndoReplacingColumn(columnName);
+    throw;
+  }
+
+  std::cout << "Replacing flagged values by NaNs...\n";
+  for (const std::string &columnName : columnNames) {
+    if (columnName != "WEIGHT_SPECTRUM") {
+      casacore::ArrayColumn<std::complex<float>> dataCol(
+          *ms, modifier.GetOriginalColumn(columnName));
+      casacore::ArrayColumn<bool> flagCol(*ms, "FLAG");
+      casacore::Array<std::complex<float>> dataArr(dataCol.shape(0));
+      casacore::Array<bool> flagArr(flagCol.shape(0));
+      for (size_t row = 0; row != ms->nrow(); ++row) {
+        dataCol.get(row, dataArr);
+        flagCol.get(row, flagArr);
+        casacore::Array<bool>::contiter f = flagArr.cbegin();
+        bool isChanged = false;
+        for (casacore::Array<std::complex<float>>::contiter d =
+                 dataArr.cbegin();
+             d != dataArr.cend(); ++d) {
+          if (*f) {
+            *d = std::complex<float>(std::numeric_limits<float>::quiet_NaN(),
+                                     std::numeric_limits<float>::quiet_NaN());
+            isChanged = true;
+          }
+          ++f;
+        }
+        if (isChanged) dataCol.put(row, dataArr);
+      }
     }
+  }
+  std::cout << "Time taken: " << watch.ToString() << '\n';
+
+  watch.Reset();
+  watch.Start();
+
+  if (isDataReplaced) {
     for (std::string columnName : columnNames) {
       if (columnName == "WEIGHT_SPECTRUM")
         modifier.MoveColumnData<float>(columnName);
diff --git a/stmanmodifier.h b/stmanmodifier.h
index 72f85ab..37f223a 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -9,6 +9,7 @@
 #include <casacore/tables/Tables/ArrayColumn.h>
 
 #include <iostream>
+#include <set>
 
 namespace dyscostman {
 
@@ -107,6 +108,7 @@ class StManModifier {
       std::string tempName = std::string("TEMP_") + columnName;
       std::cout << "Renaming old " + columnName + " column...\n";
       _ms.renameColumn(tempName, columnName);
+      _renamedColumns.insert(columnName);
 
       casacore::ArrayColumn<T> oldColumn(_ms, tempName);
       shape = oldColumn.shape(0);
@@ -116,6 +118,27 @@ class StManModifier {
     }
   }
 
+  /**
+   * Get the name of the column that holds the original values of a column of
+   * which the storage manager is possibly being replaced.
+   */
+  std::string GetOriginalColumn(const std::string &columnName) const {
+    return _renamedColumns.count(columnName) ? "TEMP_" + columnName
+                                             : columnName;
+  }
+
+  /**
+   * Undo the replacement of a column that was started by
+   * PrepareReplacingColumn(), as long as no values have been moved.
+   */
+  void UndoReplacingColumn(const std::string &columnName) {
+    if (_renamedColumns.count(columnName)) {
+      if (_ms.tableDesc().isColumn(columnName)) _ms.removeColumn(columnName);
+      _ms.renameColumn(columnName, "TEMP_" + columnName);
+      _renamedColumns.erase(columnName);
+    }
+  }
+
   /**
    * Finish changing the storage manager for a column.
    * This should be called for each changed column after all calls to the
@@ -163,6 +186,7 @@ class StManModifier {
 
  private:
   casacore::Table &_ms;
+  std::set<std::string> _renamedColumns;
 
   template <typename T>
   void copyValues(casacore::ArrayColumn<T> &newColumn,
-- 
2.43.0


From 091b64d8e80eefbd15c45d2358d016857c959101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:46 +0000
Subject: [PATCH 24/25] fix: the value below the lowest quantization level is a
 valid symbol, also with assertions

---
 dictionary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dictionary.h b/dictionary.h
index 2afffd5..2d14c27 100644
--- a/dictionary.h
+++ b/dictionary.h
@@ -166,7 +166,7 @@ class Dictionary {
   }
 
   symbol_t symbol(const_iterator iter) const {
-    assert(iter > begin());
+    assert(iter >= begin());
     return (iter - begin());
   }
 
-- 
2.43.0


From 5b89b26d0fd1e77129c264438ea2457c6d06bf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:46 +0000
Subject: [PATCH 25/25] fix: let processes that share a table see each other's
 changes

---
 dyscostman.cc          | 69 +++++++++++++++++++++++++++++++++++++-----
 dyscostman.h           | 15 +++++++++
 dyscostmancol.h        | 18 ++++++++---
 threadeddyscocolumn.cc | 12 ++++++++
 threadeddyscocolumn.h  |  6 ++--
 5 files changed, 107 insertions(+), 13 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 873e01a..7cdcb3e 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -36,7 +36,9 @@ DyscoStMan::DyscoStMan(unsigned dataBitCount, unsigned weightBitCount,
       _normalization(Normalization::kAF),
       _studentTNu(0.0),
       _distributionTruncation(2.5),
-      _staticSeed(false) {}
+      _staticSeed(false),
+      _isFileChanged(false),
+      _isOutdated(false) {}
 
 DyscoStMan::DyscoStMan(const casacore::String &name,
                        const casacore::Record &spec)
@@ -54,7 +56,9 @@ DyscoStMan::DyscoStMan(const casacore::String &name,
       _normalization(Normalization::kAF),
       _studentTNu(0.0),
       _distributionTruncation(0.0),
-      _staticSeed(false) {
+      _staticSeed(false),
+      _isFileChanged(false),
+      _isOutdated(false) {
   setFromSpec(spec);
 }
 
@@ -73,7 +77,9 @@ DyscoStMan::DyscoStMan(const DyscoStMan &source)
       _normalization(source._normalization),
       _studentTNu(source._studentTNu),
       _distributionTruncation(source._distributionTruncation),
-      _staticSeed(source._staticSeed) {}
+      _staticSeed(source._staticSeed),
+      _isFileChanged(false),
+      _isOutdated(false) {}
 
 void DyscoStMan::setFromSpec(const casacore::Record &spec) {
   // Here we need to load from _spec
@@ -184,7 +190,10 @@ casacore::Bool DyscoStMan::flush(casacore::AipsIO &, casacore::Bool doFsync) {
                               fileName() + "' with the storage device");
     }
   }
-  return false;
+  // By this, Casacore informs the other processes that use the table
+  const bool isFileChanged = _isFileChanged;
+  _isFileChanged = false;
+  return isFileChanged;
 }
 
 void DyscoStMan::openStream(std::ios_base::openmode mode) {
@@ -208,6 +217,7 @@ void DyscoStMan::create(casacore::uInt nRow) {
 }
 
 void DyscoStMan::writeHeader() {
+  _isFileChanged = true;
   _fStream->seekp(0, std::ios_base::beg);
   Header header;
   header.columnCount = _columns.size();
@@ -328,7 +338,10 @@ void DyscoStMan::open(casacore::uInt nRow, casacore::AipsIO &) {
   }
 
   readHeader();
+  readBlockCount();
+}
 
+void DyscoStMan::readBlockCount() {
   _fStream->seekg(0, std::ios_base::end);
   if (_fStream->fail())
     throw DyscoStManError("I/O error: error reading file '" + fileName());
@@ -381,11 +394,52 @@ casacore::DataManagerColumn *DyscoStMan::makeIndArrColumn(
       "column desc constructor");
 }
 
-void DyscoStMan::resync(casacore::uInt /*nRow*/) {}
+void DyscoStMan::resync(casacore::uInt nRow) {
+  // Another process has changed the table
+  _nRow = nRow;
+  _isOutdated = true;
+  synchronize();
+}
+
+void DyscoStMan::readChanges() {
+  // Nothing that was read before counts anymore
+  for (std::unique_ptr<DyscoStManColumn> &col : _columns)
+    col->DiscardStoredData();
+  bool isDataLost = false;
+  if (areOffsetsInitialized()) {
+    std::lock_guard<std::mutex> lock(_mutex);
+    readBlockCount();
+  } else {
+    // The first block might have been completed
+    try {
+      {
+        std::lock_guard<std::mutex> lock(_mutex);
+        readHeader();
+        readBlockCount();
+      }
+      if (areOffsetsInitialized()) {
+        for (std::unique_ptr<DyscoStManColumn> &col : _columns) {
+          isDataLost = col->HasUnwrittenData() || isDataLost;
+          col->DiscardUnstoredData();
+        }
+        prepare();
+      }
+    } catch (...) {
+      for (std::unique_ptr<DyscoStManColumn> &col : _columns) col->shutdown();
+      _rowsPerBlock = 0;
+      throw;
+    }
+  }
+  _isOutdated = false;
+  if (isDataLost)
+    throw DyscoStManError(
+        "Another process has completed the first time block: the rows of that "
+        "block that were written by this process are lost");
+}
 
 void DyscoStMan::deleteManager() {
   for (std::unique_ptr<DyscoStManColumn> &col : _columns)
-    col->DiscardUnplacedData();
+    col->DiscardUnstoredData();
   unlink(fileName().c_str());
 }
 
@@ -492,7 +546,7 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
     if (i->get() == column) {
       // Finish all writing before changing the structure of the file
       for (std::unique_ptr<DyscoStManColumn> &col : _columns) col->flush();
-      (*i)->DiscardUnplacedData();
+      (*i)->DiscardUnstoredData();
       _columns.erase(i);
       if (areOffsetsInitialized())
         closeGap();
@@ -568,6 +622,7 @@ void DyscoStMan::writeCompressedData(size_t blockIndex,
                                      const DyscoStManColumn *column,
                                      const unsigned char *data, size_t size) {
   std::lock_guard<std::mutex> lock(_mutex);
+  _isFileChanged = true;
   if (_nBlocksInFile <= blockIndex) {
     _nBlocksInFile = blockIndex + 1;
   }
diff --git a/dyscostman.h b/dyscostman.h
index 37ca2aa..bf436bf 100644
--- a/dyscostman.h
+++ b/dyscostman.h
@@ -310,6 +310,14 @@ class DyscoStMan : public casacore::DataManager {
    */
   bool areOffsetsInitialized() const { return _rowsPerBlock != 0; }
 
+  /**
+   * Should be called before values are accessed, to make sure that the changes
+   * of other processes are seen.
+   */
+  void synchronize() {
+    if (_isOutdated) readChanges();
+  }
+
   /**
    * To be called by a column once it determines rowsPerBlock and antennaCount.
    * @param rowsPerBlock Number of measurement set rows in one time block.
@@ -332,6 +340,12 @@ class DyscoStMan : public casacore::DataManager {
 
   void readHeader();
 
+  /** Determine the number of blocks from the size of the file. */
+  void readBlockCount();
+
+  /** Take over what another process has changed. */
+  void readChanges();
+
   void openStream(std::ios_base::openmode mode);
 
   void writeHeader();
@@ -423,6 +437,7 @@ class DyscoStMan : public casacore::DataManager {
   Normalization _normalization;
   double _studentTNu, _distributionTruncation;
   bool _staticSeed;
+  bool _isFileChanged, _isOutdated;
 
   std::vector<std::unique_ptr<DyscoStManColumn>> _columns;
 };
diff --git a/dyscostmancol.h b/dyscostmancol.h
index 6f462c1..98ab9bf 100644
--- a/dyscostmancol.h
+++ b/dyscostmancol.h
@@ -43,11 +43,17 @@ class DyscoStManColumn : public casacore::StManColumn {
   virtual bool HasUnwrittenData() const = 0;
 
   /**
-   * Forget the values of which the place in the file is not known yet, i.e.
-   * those of an incomplete first block. To be called before the column is
-   * removed.
+   * Forget the values that were not stored yet. This includes those of an
+   * incomplete first block, of which the place in the file is not known. To be
+   * called before the column is removed.
    */
-  virtual void DiscardUnplacedData() = 0;
+  virtual void DiscardUnstoredData() = 0;
+
+  /**
+   * Forget values that were read from or written to the file, because another
+   * process might have changed them.
+   */
+  virtual void DiscardStoredData() = 0;
 
   /** Make a row unset that was just removed from the end of the table. */
   virtual void RemoveLastRow(uint64_t row) = 0;
@@ -122,6 +128,8 @@ class DyscoStManColumn : public casacore::StManColumn {
 
   bool areOffsetsInitialized() const;
 
+  void synchronize();
+
   void initializeRowsPerBlock(size_t rowsPerBlock, size_t antennaCount);
 
  private:
@@ -178,6 +186,8 @@ inline bool DyscoStManColumn::areOffsetsInitialized() const {
   return _storageManager->areOffsetsInitialized();
 }
 
+inline void DyscoStManColumn::synchronize() { _storageManager->synchronize(); }
+
 inline void DyscoStManColumn::initializeRowsPerBlock(size_t rowsPerBlock,
                                                      size_t antennaCount) {
   _storageManager->initializeRowsPerBlock(rowsPerBlock, antennaCount, true);
diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index b6efdd5..c3e5557 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -90,6 +90,15 @@ void ThreadedDyscoColumn<DataType>::flush() {
   while (!_cache.empty()) waitForCacheChange(lock);
 }
 
+template <typename DataType>
+void ThreadedDyscoColumn<DataType>::DiscardStoredData() {
+  if (!areOffsetsInitialized()) return;
+
+  flush();
+  _currentBlock = std::numeric_limits<size_t>::max();
+  _timeBlockBuffer->ResetData();
+}
+
 // Should only be called with a locked mutex
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::waitForCacheChange(
@@ -172,6 +181,7 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::getValues(
     casacore::uInt rowNr, casacore::Array<DataType> *dataArr) {
+  synchronize();
   size_t rowInBuffer = rowNr;
   bool isInBuffer = true;
   if (areOffsetsInitialized()) {
@@ -243,6 +253,7 @@ void ThreadedDyscoColumn<DataType>::storeBlock() {
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::putValues(
     casacore::uInt rowNr, const casacore::Array<DataType> *dataArr) {
+  synchronize();
   // Make sure array storage is contiguous.
   casacore::Bool deleteIt;
   const DataType* dataPtr = dataArr->getStorage (deleteIt);
@@ -295,6 +306,7 @@ void ThreadedDyscoColumn<DataType>::putValues(
 
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::RemoveLastRow(uint64_t row) {
+  synchronize();
   if (areOffsetsInitialized()) {
     const size_t blockIndex = getBlockIndex(row),
                  blockRow = getRowWithinBlock(row);
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index afdef57..fb57342 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -156,10 +156,12 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
 
   virtual void RemoveLastRow(uint64_t row) override final;
 
-  virtual void DiscardUnplacedData() override final {
-    if (!areOffsetsInitialized()) _isCurrentBlockChanged = false;
+  virtual void DiscardUnstoredData() override final {
+    _isCurrentBlockChanged = false;
   }
 
+  virtual void DiscardStoredData() override final;
+
   virtual bool HasUnwrittenData() const override final {
     std::lock_guard<std::mutex> lock(_mutex);
     return _isCurrentBlockChanged || !_cache.empty();
-- 
2.43.0

