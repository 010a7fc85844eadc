From b0b0aac996949cba0a5bca5e9943d4796303e588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 01/32] fix: use the frame width as the row stride of exported
 blocks

---
 python/io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/io.cpp b/python/io.cpp
index 5e6c875..d3893bf 100644
--- a/python/io.cpp
+++ b/python/io.cpp
@@ -37,7 +37,7 @@ PYBIND11_MODULE(_io, m)
           b.header.frameDimensions.first }, /* Buffer dimensions */
         { sizeof(uint16_t) * b.header.frameDimensions.second *
             b.header.frameDimensions.first,
-          sizeof(uint16_t) * b.header.frameDimensions.second,
+          sizeof(uint16_t) * b.header.frameDimensions.first,
           sizeof(uint16_t) } /* Strides (in bytes) for each index */
       );
     });
@@ -58,7 +58,7 @@ PYBIND11_MODULE(_io, m)
           b.header.frameDimensions.first }, /* Buffer dimensions */
         { sizeof(uint16_t) * b.header.frameDimensions.second *
             b.header.frameDimensions.first,
-          sizeof(uint16_t) * b.header.frameDimensions.second,
+          sizeof(uint16_t) * b.header.frameDimensions.first,
           sizeof(uint16_t) } /* Strides (in bytes) for each index */
       );
     });
-- 
2.43.0


From fd887cdd5e64f975eccb6434cbfc6c05649c2ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 02/32] fix: do not read a missing dark reference in classic
 electron counting

---
 stempy/electron.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index f9e73df..71cb9bf 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -478,10 +478,10 @@ ElectronCountedData electronCount(InputIt first, InputIt last,
           // Subtract darkfield reference and apply gain if we have one, this
           // will be based on our template type, it can be evaluated a compile
           // time.
-          if (std::is_integral<FrameType>::value) {
-            frame[j] -= darkReference[j];
-          } else {
-            frame[j] = (frame[j] - darkReference[j]) * gain[j];
+          static_if<dark>([&]() { frame[j] -= darkReference[j]; })();
+
+          if (!std::is_integral<FrameType>::value) {
+            frame[j] *= gain[j];
           }
           // Threshold the electron events
           if (frame[j] <= backgroundThreshold || frame[j] >= xRayThreshold) {
-- 
2.43.0


From 6056357e0409540dd10f15dc6e7f32545fe92e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 03/32] fix: apply the row dark correction along rows of
 non-square frames

---
 stempy/electron.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 71cb9bf..10756f3 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -242,8 +242,8 @@ void applyRowDark(std::vector<FrameType>& frame, Dimensions2D frameDimensions,
                   double xRayThreshold, const float globalDark[],
                   const float gain[], bool useMean)
 {
-  auto height = frameDimensions.first;
-  auto width = frameDimensions.second;
+  auto width = frameDimensions.first;
+  auto height = frameDimensions.second;
 
   // If the width is an odd number, give the right side the extra one
   auto leftSize = width / 2;
-- 
2.43.0


From 904270915b95489238ef89144f7fa375c72826a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 04/32] fix: keep threshold histogram bins in range

---
 stempy/electronthresholds.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index 20d3396..c575abb 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -134,6 +134,9 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
                          static_cast<int>(mean - xrayThreshold * stdDev));
 
   auto numberOfBins = maxBin - minBin;
+  if (numberOfBins < 1) {
+    throw std::runtime_error("Not enough distinct samples for a histogram");
+  }
   std::vector<double> histogram(numberOfBins, 0.0);
   std::vector<double> bins(numberOfBins);
 
@@ -146,7 +149,7 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   for (int i = 0; i < numberSamplePixels; i++) {
     auto binIndex = static_cast<int>(samples[i] - minBin);
     // Skip values outside range
-    if (binIndex >= numberOfBins) {
+    if (binIndex < 0 || binIndex >= numberOfBins) {
       continue;
     }
     histogram[binIndex] += 1;
-- 
2.43.0


From 7e1862383c63c26fa9e4ce115f733695b109dac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 05/32] fix: lock the scan position when counting sample blocks

---
 stempy/electron.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 10756f3..aed9952 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -759,7 +759,8 @@ ElectronCountedData electronCount(Reader* reader,
   // lambda to process sample and incomplete blocks
   auto countExtraBlock = [&events, &backgroundThreshold, &xRayThreshold,
                           darkReference, gain, applyRowDarkSubtraction,
-                          optimizedMean, applyRowDarkUseMean] (Block& b) {
+                          optimizedMean, applyRowDarkUseMean,
+                          &positionMutexes] (Block& b) {
     auto data = b.data.get();
     auto frameDimensions = b.header.frameDimensions;
     for (unsigned j = 0; j < b.header.imagesInBlock; j++) {
@@ -773,6 +774,8 @@ ElectronCountedData electronCount(Reader* reader,
         xRayThreshold, gain, applyRowDarkSubtraction, optimizedMean,
         applyRowDarkUseMean);
       auto position = b.header.imageNumbers[j];
+      // The workers may be updating the events for this position
+      std::unique_lock<std::mutex> positionLock(positionMutexes[position]);
       events[position].push_back(std::move(frameEvents));
     }
   };
-- 
2.43.0


From 09f8b1c6de99a5355f9cc227cd78db4ed8cbb6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 06/32] fix: report worker exceptions from electron counting
 and never leave workers behind

---
 stempy/electron.cpp | 38 ++++++++++++++++++++++++++++++++++++--
 stempy/reader.h     |  8 ++++++++
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index aed9952..6deadc2 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -613,10 +613,18 @@ ElectronCountedData electronCount(Reader* reader,
     getSampleBlocksPerRank(worldSize, rank, thresholdNumberOfBlocks);
 #endif
 
-  auto countBlock = [&events, &electronCounting, &backgroundThreshold,
+  // Used to tell the workers to skip the remaining blocks, if we have to leave
+  // because of an exception.
+  std::atomic<bool> aborted = { false };
+
+  auto countBlock = [&events, &electronCounting, &aborted, &backgroundThreshold,
                      &xRayThreshold, &optimizedMean, darkReference, gain,
                      &applyRowDarkSubtraction, &applyRowDarkUseMean,
                      &positionMutexes](Block& b) {
+    if (aborted) {
+      return;
+    }
+
     auto data = b.data.get();
     auto frameDimensions = b.header.frameDimensions;
     for (unsigned i = 0; i < b.header.imagesInBlock; i++) {
@@ -683,6 +691,32 @@ ElectronCountedData electronCount(Reader* reader,
 
   auto done = reader->readAll(counter);
 
+  // The workers use our local variables, so make sure they are finished when
+  // we leave because of an exception.
+  struct WaitForWorkers
+  {
+    std::future<void>& done;
+    std::mutex& mutex;
+    std::condition_variable& condition;
+    std::atomic<bool>& electronCounting;
+    std::atomic<bool>& aborted;
+
+    ~WaitForWorkers()
+    {
+      if (!done.valid()) {
+        return;
+      }
+      {
+        std::unique_lock<std::mutex> lock(mutex);
+        aborted = true;
+        electronCounting = true;
+      }
+      condition.notify_all();
+      done.wait();
+    }
+  } waitForWorkers{ done, sampleMutex, sampleCondition, electronCounting,
+                    aborted };
+
   // Wait for enough blocks to come in to calculate the threshold.
   std::unique_lock<std::mutex> lock(sampleMutex);
   sampleCondition.wait(lock, [&sampleBlocks, thresholdNumberOfBlocks]() {
@@ -793,7 +827,7 @@ ElectronCountedData electronCount(Reader* reader,
   }
 
   // Make sure all threads are finished before returning the result
-  done.wait();
+  done.get();
 
 #ifdef USE_MPI
   gatherEvents(worldSize, rank, events);
diff --git a/stempy/reader.h b/stempy/reader.h
index 4292a91..da78de7 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -472,6 +472,10 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
 
   // Return a future that is resolved once the processing is complete
   auto complete = std::async(std::launch::deferred, [this]() {
+    // Let all the workers finish before reporting an exception from one of them
+    for (auto& future : this->m_futures) {
+      future.wait();
+    }
     for (auto& future : this->m_futures) {
       future.get();
     }
@@ -825,6 +829,10 @@ std::future<void> SectorStreamMultiPassThreadedReader::readAll(Functor& func)
 
   // Return a future that is resolved once the processing is complete
   auto complete = std::async(std::launch::deferred, [this]() {
+    // Let all the workers finish before reporting an exception from one of them
+    for (auto& future : this->m_futures) {
+      future.wait();
+    }
     for (auto& future : this->m_futures) {
       future.get();
     }
-- 
2.43.0


From 566b53ac50cff8ade2c7256955a6ce8bdb84a87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 07/32] fix: check for remaining streams under the streams
 mutex

---
 stempy/reader.cpp | 7 +++++++
 stempy/reader.h   | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 7e0a090..c318a58 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -795,6 +795,13 @@ void SectorStreamThreadedReader::initNumberOfThreads()
   }
 }
 
+bool SectorStreamThreadedReader::haveStreams()
+{
+  std::unique_lock<std::mutex> streamsLock(m_streamsMutex);
+
+  return !m_streams.empty();
+}
+
 bool SectorStreamThreadedReader::nextStream(StreamQueueEntry& streamQueueEntry)
 {
   {
diff --git a/stempy/reader.h b/stempy/reader.h
index da78de7..83d42df 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -372,6 +372,7 @@ private:
                       StreamQueueComparison> m_streamQueue;
 
   void initNumberOfThreads();
+  bool haveStreams();
   bool nextStream(StreamQueueEntry& entry);
 };
 
@@ -392,7 +393,7 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
   for (int i = 0; i < m_threads; i++) {
     m_futures.emplace_back(m_pool->enqueue([this, &func]() {
 
-      while (!m_streams.empty()) {
+      while (haveStreams()) {
         // Get the next stream to read from
         StreamQueueEntry streamQueueEntry;
 
-- 
2.43.0


From e46ed24d1b092aa340a966d66235a78fe2d4dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 08/32] fix: mark the frames of the threaded reader as complete

---
 stempy/reader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index 83d42df..8c9e49f 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -447,6 +447,7 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
           // Now now have the complete frame
           if (++frame.sectorCount == 4) {
             cacheLock.lock();
+            frame.block.header.complete.assign(1, true);
             blocks.emplace_back(frame.block);
             m_frameCache.erase(frameNumber);
             cacheLock.unlock();
-- 
2.43.0


From c7183aa3d2794fdd96eac1fd668ff30f603bf5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 09/32] fix: forget partial frames when a sector reader is
 reset

---
 stempy/reader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index c318a58..43876aa 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -562,6 +562,7 @@ void SectorStreamReader::reset()
     }
   }
   m_streams.clear();
+  m_frameCache.clear();
   openFiles();
   m_streamsIterator = m_streams.begin();
 }
-- 
2.43.0


From 65b4139a02d0745aef860ceb9812556b6854f015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 10/32] fix: allow a threaded reader to be read again

---
 stempy/reader.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index 8c9e49f..a0e8d5d 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -380,6 +380,8 @@ template <typename Functor>
 std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
 {
   m_pool = std::make_unique<ThreadPool>(m_threads);
+  m_futures.clear();
+  m_streamQueue = decltype(m_streamQueue)();
 
   auto streamsIterator = m_streams.begin();
 
@@ -823,6 +825,10 @@ std::future<void> SectorStreamMultiPassThreadedReader::readAll(Functor& func)
   initializePool();
   initializeScanMap();
 
+  // Start from the first scan position, even if we have been read before
+  m_futures.clear();
+  m_processed = m_scanMapOffset;
+
   // Now enqueue lambda's to read the frames and run processing
   for (int i = 0; i < m_threads; i++) {
     m_futures.emplace_back(
-- 
2.43.0


From 5475a90f916580d36436550d2cbbe0cc0db7933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 11/32] fix: reject image numbers, sectors and image counts
 that are out of range when reading

---
 stempy/reader.cpp | 19 +++++++++++++++++++
 stempy/reader.h   | 15 ++++++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 43876aa..bd1d4a6 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -137,6 +137,13 @@ Header StreamReader::readHeaderVersion1() {
   // Skip over 6 - 10 - reserved
   index += 5;
 
+  // The image numbers have to fit into the header
+  if (header.imagesInBlock > static_cast<uint32_t>(1024 - index)) {
+    ostringstream msg;
+    msg << "Invalid number of images in block: " << header.imagesInBlock;
+    throw invalid_argument(msg.str());
+  }
+
   // Now get the image numbers
   header.imageNumbers.resize(header.imagesInBlock);
   copy(headerData + index,
@@ -549,6 +556,12 @@ void SectorStreamReader::openFiles()
     }
 
     auto sector = extractSector(file);
+    if (sector < 0 || sector > 3) {
+      delete stream;
+      ostringstream msg;
+      msg << "Unable to determine the sector of file: " << file;
+      throw invalid_argument(msg.str());
+    }
 
     m_streams.emplace_back(stream, sector);
   }
@@ -881,6 +894,12 @@ void SectorStreamMultiPassThreadedReader::readHeaders()
                       header.frameDimensions.second * header.imagesInBlock;
 
       auto imageNumber = header.imageNumbers[0];
+      if (imageNumber >= m_scanMap.size()) {
+        ostringstream msg;
+        msg << "Image number " << imageNumber << " is out of bounds! "
+            << "There are " << m_scanMap.size() << " scans.\n";
+        throw invalid_argument(msg.str());
+      }
       auto& frameMaps = m_scanMap[imageNumber];
 
       // Protect initialization of the map with the correct mutex
diff --git a/stempy/reader.h b/stempy/reader.h
index a0e8d5d..dfb7ee8 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -742,7 +742,20 @@ inline void SectorStreamMultiPassThreadedReader::initializeScanMap()
 
   // Wait for all files to be processed
   for (auto& future : this->m_futures) {
-    future.get();
+    future.wait();
+  }
+  try {
+    for (auto& future : this->m_futures) {
+      future.get();
+    }
+  } catch (...) {
+    // The scan map is not usable, start again from the beginning next time
+    for (auto& sectorStream : this->m_streams) {
+      sectorStream.stream->seekg(0);
+    }
+    m_futures.clear();
+    m_scanMap.clear();
+    throw;
   }
 
 #ifdef USE_MPI
-- 
2.43.0


From 22661d766f001875b194a12da8069eb1e5c44262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 12/32] fix: reject scan positions outside of the scan when
 electron counting

---
 stempy/electron.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 6deadc2..fe0269a 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -405,6 +405,17 @@ std::vector<uint32_t> maximalPoints(const std::vector<FrameType>& frame,
   return events;
 }
 
+// Make sure that a scan position that was read from a file is inside the scan
+inline void checkPosition(uint32_t position, size_t numberOfPositions)
+{
+  if (position >= numberOfPositions) {
+    std::ostringstream msg;
+    msg << "Image number " << position << " is out of bounds! "
+        << "There are " << numberOfPositions << " scan positions.";
+    throw std::invalid_argument(msg.str());
+  }
+}
+
 template <typename InputIt, typename FrameType, bool dark>
 ElectronCountedData electronCount(InputIt first, InputIt last,
                                   const ElectronCountOptionsClassic& options)
@@ -452,6 +463,7 @@ ElectronCountedData electronCount(InputIt first, InputIt last,
     auto block = std::move(*first);
     auto data = block.data.get();
     for (unsigned i = 0; i < block.header.imagesInBlock; i++) {
+      checkPosition(block.header.imageNumbers[i], events.size());
       auto frameStart =
         data + i * frameDimensions.first * frameDimensions.second;
       std::vector<FrameType> frame(frameStart,
@@ -640,6 +652,7 @@ ElectronCountedData electronCount(Reader* reader,
         applyRowDarkUseMean);
 
       auto position = b.header.imageNumbers[i];
+      checkPosition(position, events.size());
       auto& eventsForPosition = events[position];
       // Find the mutex for this position and lock it
       auto& mutex = positionMutexes[position];
@@ -808,6 +821,7 @@ ElectronCountedData electronCount(Reader* reader,
         xRayThreshold, gain, applyRowDarkSubtraction, optimizedMean,
         applyRowDarkUseMean);
       auto position = b.header.imageNumbers[j];
+      checkPosition(position, events.size());
       // The workers may be updating the events for this position
       std::unique_lock<std::mutex> positionLock(positionMutexes[position]);
       events[position].push_back(std::move(frameEvents));
-- 
2.43.0


From 88e782c6d8092b60668e7cd7d5ca3ff16a23d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 13/32] fix: reject image numbers and events that are outside
 of the STEM image or frame

---
 stempy/image.cpp | 11 +++++++++++
 stempy/image.h   | 30 ++++++++++++++++++++++--------
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/stempy/image.cpp b/stempy/image.cpp
index b2bb117..282b678 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -154,6 +154,11 @@ void _runCalculateSTEMValues(const uint16_t data[],
       calculateSTEMValues(data, offset,
                           numberOfPixels, mask, imageNumbers[i]);
 #endif
+    if (imageNumbers[i] >= image.dimensions.first * image.dimensions.second) {
+      ostringstream msg;
+      msg << "Image number " << imageNumbers[i] << " is out of bounds!";
+      throw invalid_argument(msg.str());
+    }
     image.data.get()[imageNumbers[i]] = stemValues.data;
   }
 }
@@ -467,6 +472,12 @@ void radialSumFrames(Coordinates2D center, const uint16_t data[],
     // We need to ensure we are using int64_t to prevent overflow.
     auto offset = static_cast<int64_t>(i) * numberOfPixels;
     auto imageNumber = imageNumbers[i];
+    if (imageNumber >=
+        radialSum.dimensions.first * radialSum.dimensions.second) {
+      ostringstream msg;
+      msg << "Image number " << imageNumber << " is out of bounds!";
+      throw invalid_argument(msg.str());
+    }
     radialSumFrame(center, data, offset, frameDimensions, imageNumber,
                    radialSum);
   }
diff --git a/stempy/image.h b/stempy/image.h
index bf95608..a0163b7 100644
--- a/stempy/image.h
+++ b/stempy/image.h
@@ -3,7 +3,10 @@
 
 #include "mask.h"
 
+#include <algorithm>
 #include <memory>
+#include <sstream>
+#include <stdexcept>
 #include <vector>
 
 namespace stempy {
@@ -57,8 +60,16 @@ namespace stempy {
   // Create STEM Images from sparse data
   template <typename T>
   void calculateSTEMValuesSparse(const std::vector<std::vector<T>>& sparseData,
-                                 uint16_t* mask, STEMImage& image)
+                                 uint16_t* mask, Dimensions2D frameDimensions,
+                                 STEMImage& image)
   {
+    if (sparseData.size() > image.dimensions.first * image.dimensions.second) {
+      std::ostringstream msg;
+      msg << "There are more positions in the data than in the scan!";
+      throw std::invalid_argument(msg.str());
+    }
+
+    auto numberOfPixels = frameDimensions.first * frameDimensions.second;
     for (unsigned i = 0; i < sparseData.size(); ++i) {
       for (unsigned j = 0; j < sparseData[i].size(); ++j) {
         uint64_t values = 0;
@@ -66,6 +77,11 @@ namespace stempy {
           // This access is a little ugly, but its needed to be compatible with
           // both vector<uint32_t> and py:array_t<uint32_t>
           auto pos = sparseData[i][j].data()[k];
+          if (pos >= numberOfPixels) {
+            std::ostringstream msg;
+            msg << "Event position " << pos << " is out of bounds!";
+            throw std::invalid_argument(msg.str());
+          }
           values += mask[pos];
         }
         image.data.get()[i] += values;
@@ -93,18 +109,16 @@ namespace stempy {
     }
 
     std::vector<STEMImage> images;
-    std::vector<uint16_t*> masks;
+    std::vector<std::unique_ptr<uint16_t[]>> masks;
     for (size_t i = 0; i < innerRadii.size(); ++i) {
       images.push_back(STEMImage(scanDimensions));
-      masks.push_back(createAnnularMask(frameDimensions, innerRadii[i],
-                                        outerRadii[i], center));
+      masks.emplace_back(createAnnularMask(frameDimensions, innerRadii[i],
+                                           outerRadii[i], center));
     }
 
     for (size_t i = 0; i < masks.size(); ++i)
-      calculateSTEMValuesSparse(sparseData, masks[i], images[i]);
-
-    for (auto* p : masks)
-      delete[] p;
+      calculateSTEMValuesSparse(sparseData, masks[i].get(), frameDimensions,
+                                images[i]);
 
     return images;
   }
-- 
2.43.0


From d82c56ef07e306b7c300cd04e4bb70960c37a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 14/32] fix: keep masks and radial sums alive until the thread
 pool is finished

---
 stempy/image.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/stempy/image.cpp b/stempy/image.cpp
index 282b678..c3e7904 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -210,7 +210,7 @@ vector<STEMImage> createSTEMImages(InputIt first, InputIt last,
   auto frameDimensions = first->header.frameDimensions;
   auto numberOfPixels = frameDimensions.first * frameDimensions.second;
 
-  vector<uint16_t*> masks;
+  vector<std::unique_ptr<uint16_t[]>> masks;
 
 #ifdef VTKm
   // Only transfer the masks once
@@ -218,12 +218,12 @@ vector<STEMImage> createSTEMImages(InputIt first, InputIt last,
 #endif
 
   for (size_t i = 0; i < innerRadii.size(); ++i) {
-    masks.push_back(
+    masks.emplace_back(
       createAnnularMask(frameDimensions, innerRadii[i], outerRadii[i], center));
 
 #ifdef VTKm
     maskHandles.push_back(
-      vtkm::cont::make_ArrayHandle(masks.back(), numberOfPixels));
+      vtkm::cont::make_ArrayHandle(masks.back().get(), numberOfPixels));
 #endif
   }
 
@@ -258,7 +258,7 @@ vector<STEMImage> createSTEMImages(InputIt first, InputIt last,
           b.data.reset();
         }));
 #else
-      const auto& mask = masks[i];
+      auto* mask = masks[i].get();
       futures.emplace_back(
         pool.enqueue([b, numberOfPixels, mask, &image]() mutable {
           _runCalculateSTEMValues(b.data.get(), b.header.imageNumbers,
@@ -275,9 +275,6 @@ vector<STEMImage> createSTEMImages(InputIt first, InputIt last,
   for (auto& future : futures)
     future.get();
 
-  for (const auto* p : masks)
-    delete[] p;
-
   return images;
 }
 
@@ -539,8 +536,10 @@ RadialSum<uint64_t> radialSum(InputIt first, InputIt last,
   // We benchmarked this on a 10 core computer, and typically found
   // 2 threads to be ideal.
   int numThreads = 2;
-  ThreadPool pool(numThreads);
+  // Needs to be created before the pool, so that it is still there while the
+  // pool finishes its tasks when we leave because of an exception.
   RadialSum<uint64_t> radialSum(scanDimensions, maxRadius + 1);
+  ThreadPool pool(numThreads);
 
 #ifdef VTKm
   // We need the reinterpret_cast as vtkm currently doesn't support atomic
-- 
2.43.0


From 92aefed12314fff2afa517c8a6af9b8c1aff2bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 15/32] fix: reject a table of image numbers that is too short

---
 python/pyreader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pyreader.cpp b/python/pyreader.cpp
index d287510..59df0d0 100644
--- a/python/pyreader.cpp
+++ b/python/pyreader.cpp
@@ -45,6 +45,9 @@ PyBlock PyReader::read()
 
   // get the image numbers for current header
   std::vector<uint32_t> imageNumberForBlock;
+  if (upperBound > m_imageNumbers.size()) {
+    throw std::invalid_argument("There are fewer image numbers than images!");
+  }
   for (auto i = m_currIndex; i < upperBound; i++) {
     imageNumberForBlock.push_back(m_imageNumbers[i]);
   }
-- 
2.43.0


From 95e6d11ec93f85133768a7b61a1a1615082464a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 16/32] fix: require C-contiguous arrays and do not copy Python
 references without the GIL

---
 python/image.cpp            | 60 ++++++++++++++++++-------------------
 python/pyreader.cpp         |  6 ++--
 python/pyreader.h           |  8 +++--
 stempy/electronthresholds.h |  4 +--
 4 files changed, 41 insertions(+), 37 deletions(-)

diff --git a/python/image.cpp b/python/image.cpp
index 894caad..82bf23a 100644
--- a/python/image.cpp
+++ b/python/image.cpp
@@ -47,7 +47,7 @@ struct ElectronCountedDataPyArray
     frameDimensions = other.frameDimensions;
   }
 
-  std::vector<std::vector<py::array_t<uint32_t>>> data;
+  std::vector<std::vector<PyCArray<uint32_t>>> data;
   ElectronCountedMetadata metadata;
 
   Dimensions2D scanDimensions = { 0, 0 };
@@ -56,10 +56,10 @@ struct ElectronCountedDataPyArray
 
 struct ElectronCountOptionsClassicPy
 {
-  py::array_t<float> darkReference;
+  PyCArray<float> darkReference;
   double backgroundThreshold = DBL_MIN;
   double xRayThreshold = DBL_MAX;
-  py::array_t<float> gain;
+  PyCArray<float> gain;
   Dimensions2D scanDimensions = { 0, 0 };
   bool applyRowDarkSubtraction = false;
   float optimizedMean = 0;
@@ -94,12 +94,12 @@ struct ElectronCountOptionsClassicPy
 
 struct ElectronCountOptionsPy
 {
-  py::array_t<float> darkReference;
+  PyCArray<float> darkReference;
   int thresholdNumberOfBlocks = 1;
   int numberOfSamples = 20;
   double backgroundThresholdNSigma = 4;
   double xRayThresholdNSigma = 10;
-  py::array_t<float> gain;
+  PyCArray<float> gain;
   Dimensions2D scanDimensions = { 0, 0 };
   bool verbose = false;
   bool applyRowDarkSubtraction = false;
@@ -137,7 +137,7 @@ struct ElectronCountOptionsPy
 
 template <typename BlockType>
 CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<BlockType>& blocks, py::array_t<float> darkReference,
+  std::vector<BlockType>& blocks, const PyCArray<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma)
 {
@@ -147,9 +147,9 @@ CalculateThresholdsResults<uint16_t> calculateThresholds(
 
 template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<BlockType>& blocks, py::array_t<float> darkReference,
+  std::vector<BlockType>& blocks, const PyCArray<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain)
+  double xRayThresholdNSigma, const PyCArray<float>& gain)
 {
   return calculateThresholds(blocks, darkReference.data(), numberOfSamples,
                              backgroundThresholdNSigma, xRayThresholdNSigma,
@@ -160,7 +160,7 @@ template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
   std::vector<BlockType>& blocks, Image<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain)
+  double xRayThresholdNSigma, const PyCArray<float>& gain)
 {
   return calculateThresholds(blocks, darkReference.data.get(), numberOfSamples,
                              backgroundThresholdNSigma, xRayThresholdNSigma,
@@ -172,7 +172,7 @@ template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
   std::vector<BlockType>& blocks, int numberOfSamples,
   double backgroundThresholdNSigma, double xRayThresholdNSigma,
-  py::array_t<float> gain)
+  const PyCArray<float>& gain)
 {
 
   return calculateThresholds<BlockType, float, false>(
@@ -182,23 +182,23 @@ CalculateThresholdsResults<float> calculateThresholds(
 
 // Only dark reference
 template CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<Block>& blocks, py::array_t<float> darkReference,
+  std::vector<Block>& blocks, const PyCArray<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma);
 template CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<PyBlock>& blocks, py::array_t<float> darkReference,
+  std::vector<PyBlock>& blocks, const PyCArray<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma);
 
 // Gain and darkreference
 template CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<Block>& blocks, py::array_t<float> darkReference,
+  std::vector<Block>& blocks, const PyCArray<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain);
+  double xRayThresholdNSigma, const PyCArray<float>& gain);
 template CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<PyBlock>& blocks, py::array_t<float> darkReference,
+  std::vector<PyBlock>& blocks, const PyCArray<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain);
+  double xRayThresholdNSigma, const PyCArray<float>& gain);
 
 template <typename InputIt>
 ElectronCountedDataPyArray electronCount(
@@ -216,7 +216,7 @@ ElectronCountedDataPyArray electronCount(Reader* reader,
 
 // Explicitly instantiate version for py::array_t
 template std::vector<STEMImage> createSTEMImages(
-  const std::vector<std::vector<py::array_t<uint32_t>>>& sparseData,
+  const std::vector<std::vector<PyCArray<uint32_t>>>& sparseData,
   const std::vector<int>& innerRadii, const std::vector<int>& outerRadii,
   Dimensions2D scanDimensions, Dimensions2D frameDimensions,
   Coordinates2D center);
@@ -404,7 +404,7 @@ PYBIND11_MODULE(_image, m)
     py::call_guard<py::gil_scoped_release>());
   m.def("create_stem_images",
         (vector<STEMImage>(*)(
-          const std::vector<std::vector<py::array_t<uint32_t>>>&,
+          const std::vector<std::vector<PyCArray<uint32_t>>>&,
           const vector<int>&, const vector<int>&, Dimensions2D, Dimensions2D,
           Coordinates2D)) &
           createSTEMImages,
@@ -494,25 +494,25 @@ PYBIND11_MODULE(_image, m)
   m.def(
     "calculate_thresholds",
     (CalculateThresholdsResults<float>(*)(vector<Block>&, Image<float>&, int,
-                                          double, double, py::array_t<float>)) &
+                                          double, double, const PyCArray<float>&)) &
       calculateThresholds,
     py::call_guard<py::gil_scoped_release>());
   m.def(
     "calculate_thresholds",
     (CalculateThresholdsResults<float>(*)(vector<PyBlock>&, Image<float>&, int,
-                                          double, double, py::array_t<float>)) &
+                                          double, double, const PyCArray<float>&)) &
       calculateThresholds,
     py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<Block>&,
-                                              py::array_t<float>, int, double,
-                                              double, py::array_t<float>)) &
+                                              const PyCArray<float>&, int, double,
+                                              double, const PyCArray<float>&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<PyBlock>&,
-                                              py::array_t<float>, int, double,
-                                              double, py::array_t<float>)) &
+                                              const PyCArray<float>&, int, double,
+                                              double, const PyCArray<float>&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
 
@@ -529,34 +529,34 @@ PYBIND11_MODULE(_image, m)
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<uint16_t>(*)(
-          vector<Block>&, py::array_t<float>, int, double, double)) &
+          vector<Block>&, const PyCArray<float>&, int, double, double)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<uint16_t>(*)(
-          vector<PyBlock>&, py::array_t<float>, int, double, double)) &
+          vector<PyBlock>&, const PyCArray<float>&, int, double, double)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
 
   // Calculate thresholds, with gain and without darkreference
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<Block>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double, const PyCArray<float>&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<PyBlock>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double, const PyCArray<float>&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<Block>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double, const PyCArray<float>&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<PyBlock>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double, const PyCArray<float>&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
 
diff --git a/python/pyreader.cpp b/python/pyreader.cpp
index 59df0d0..c752707 100644
--- a/python/pyreader.cpp
+++ b/python/pyreader.cpp
@@ -3,11 +3,11 @@
 
 namespace stempy {
 
-PyBlock::PyBlock(py::array_t<uint16_t> pyarray)
+PyBlock::PyBlock(PyCArray<uint16_t> pyarray)
 {
   // Since this is the constructor, this should not be deleting anything
   // Otherwise, we might would need py::gil_scoped_acquire gil
-  this->data.array.reset(new py::array_t<uint16_t>(std::move(pyarray)));
+  this->data.array.reset(new PyCArray<uint16_t>(std::move(pyarray)));
 }
 
 PyReader::PyReader(py::object pyDataSet, std::vector<uint32_t>& imageNumbers,
@@ -38,7 +38,7 @@ PyBlock PyReader::read()
   }
 
   auto sliceIndex = py::slice(m_currIndex, upperBound, 1);
-  py::array_t<uint16_t> pyarray = getItems(sliceIndex);
+  PyCArray<uint16_t> pyarray = getItems(sliceIndex);
 
   PyBlock b(pyarray);
   Dimensions2D frameDimensions = { pyarray.shape()[2], pyarray.shape()[1] };
diff --git a/python/pyreader.h b/python/pyreader.h
index c7ae8de..791708a 100644
--- a/python/pyreader.h
+++ b/python/pyreader.h
@@ -11,6 +11,10 @@ namespace py = pybind11;
 
 namespace stempy {
 
+// NumPy arrays that we access through a plain pointer have to be C-contiguous
+template <typename T>
+using PyCArray = py::array_t<T, py::array::c_style | py::array::forcecast>;
+
 struct PYBIND11_EXPORT DataHolder
 {
   DataHolder() = default;
@@ -63,7 +67,7 @@ struct PYBIND11_EXPORT DataHolder
     this->array.reset();
   }
 
-  std::shared_ptr<py::array_t<uint16_t>> array;
+  std::shared_ptr<PyCArray<uint16_t>> array;
 };
 
 struct PYBIND11_EXPORT PyBlock
@@ -71,7 +75,7 @@ struct PYBIND11_EXPORT PyBlock
   Header header;
   DataHolder data;
   PyBlock() = default;
-  PyBlock(py::array_t<uint16_t> pyarray);
+  PyBlock(PyCArray<uint16_t> pyarray);
 };
 
 class PYBIND11_EXPORT PyReader
diff --git a/stempy/electronthresholds.h b/stempy/electronthresholds.h
index cdd3bc2..ea7f8f2 100644
--- a/stempy/electronthresholds.h
+++ b/stempy/electronthresholds.h
@@ -50,7 +50,7 @@ CalculateThresholdsResults<uint16_t> calculateThresholds(
 
 template <typename BlockType>
 CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<BlockType>& blocks, py::array_t<float> darkreference,
+  std::vector<BlockType>& blocks, const PyCArray<float>& darkreference,
   int numberOfSamples = 20, double backgroundThresholdNSigma = 4,
   double xRayThresholdNSigma = 10);
 
@@ -74,7 +74,7 @@ CalculateThresholdsResults<float> calculateThresholds(
 
 template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<BlockType>& blocks, py::array_t<float> darkreference,
+  std::vector<BlockType>& blocks, const PyCArray<float>& darkreference,
   int numberOfSamples = 20, double backgroundThresholdNSigma = 4,
   double xRayThresholdNSigma = 10);
 
-- 
2.43.0


From b5c80943698c8881e06178d11c61d0c59d2713e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 17/32] fix: close the HDF5 string type and never close the
 default property list

---
 h5cpp/h5readwrite.cpp | 5 ++++-
 h5cpp/hidcloser.h     | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/h5cpp/h5readwrite.cpp b/h5cpp/h5readwrite.cpp
index aa11199..993e5a8 100644
--- a/h5cpp/h5readwrite.cpp
+++ b/h5cpp/h5readwrite.cpp
@@ -218,7 +218,9 @@ public:
       dcplId = H5Pcreate(H5P_DATASET_CREATE);
       H5Pset_chunk(dcplId, h5ChunkDims.size(), &h5ChunkDims[0]);
     }
-    HIDCloser dcplCloser(dcplId, H5Pclose);
+    // The default property list must not be closed
+    HIDCloser dcplCloser(chunkDims.empty() ? H5I_INVALID_HID : dcplId,
+                         H5Pclose);
 
     hid_t dataSpaceId =
       H5Screate_simple(static_cast<int>(dims.size()), &h5dim[0], nullptr);
@@ -961,6 +963,7 @@ bool H5ReadWrite::setAttribute<const char*>(const string& path,
   HIDCloser dataSpaceCloser(dataSpaceId, H5Sclose);
 
   hid_t dataType = H5Tcopy(H5T_C_S1);
+  HIDCloser dataTypeCloser(dataType, H5Tclose);
   herr_t status = H5Tset_size(dataType, H5T_VARIABLE);
 
   if (status < 0) {
diff --git a/h5cpp/hidcloser.h b/h5cpp/hidcloser.h
index d597e7f..3318287 100644
--- a/h5cpp/hidcloser.h
+++ b/h5cpp/hidcloser.h
@@ -45,6 +45,7 @@ public:
     if (this != &other) {
       close();
       m_value = other.m_value;
+      m_closer = other.m_closer;
       other.m_value = H5I_INVALID_HID;
     }
     return *this;
-- 
2.43.0


From 23c51d7099d84d515d73db8b72adf5b18f82e161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 18/32] fix: report HDF5 creation failures when converting

---
 stempy/reader.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index bd1d4a6..227aa5a 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -665,21 +665,28 @@ void SectorStreamReader::toHdf5FrameFormat(h5::H5ReadWrite& writer)
         1, static_cast<int>(FRAME_DIMENSIONS.first),
         static_cast<int>(FRAME_DIMENSIONS.second)
       };
-      writer.createDataSet("/", "frames", dims,
-                           h5::H5ReadWrite::DataType::UInt16, chunkDims);
+      if (!writer.createDataSet("/", "frames", dims,
+                                h5::H5ReadWrite::DataType::UInt16,
+                                chunkDims)) {
+        throw std::runtime_error("Unable to create HDF5 dataset.");
+      }
       std::vector<int> scanDimensions = {
         static_cast<int>(b.header.scanDimensions.first),
         static_cast<int>(b.header.scanDimensions.second)
       };
-      writer.setAttribute("/frames", "scan_dimensions", scanDimensions);
+      if (!writer.setAttribute("/frames", "scan_dimensions", scanDimensions)) {
+        throw std::runtime_error("Unable to set HDF5 attribute.");
+      }
 
       std::vector<int> scanSize = {
         0, static_cast<int>(b.header.scanDimensions.second),
         static_cast<int>(b.header.scanDimensions.first)
       };
-      writer.createGroup("/stem");
-      writer.createDataSet("/stem", "images", scanSize,
-                           h5::H5ReadWrite::DataType::UInt64);
+      if (!writer.createGroup("/stem") ||
+          !writer.createDataSet("/stem", "images", scanSize,
+                                h5::H5ReadWrite::DataType::UInt64)) {
+        throw std::runtime_error("Unable to create HDF5 dataset.");
+      }
 
       created = true;
     }
@@ -720,8 +727,11 @@ void SectorStreamReader::toHdf5DataCubeFormat(h5::H5ReadWrite& writer)
         1, 1, static_cast<int>(FRAME_DIMENSIONS.first),
         static_cast<int>(FRAME_DIMENSIONS.second)
       };
-      writer.createDataSet("/", "datacube", dims,
-                           h5::H5ReadWrite::DataType::UInt16, chunkDims);
+      if (!writer.createDataSet("/", "datacube", dims,
+                                h5::H5ReadWrite::DataType::UInt16,
+                                chunkDims)) {
+        throw std::runtime_error("Unable to create HDF5 dataset.");
+      }
       created = true;
     }
 
-- 
2.43.0


From 589ff89a46b697b49f299fa48b8e7e7831e1b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 19/32] fix: write every image of a block at its own position
 in the data cube

---
 stempy/reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 227aa5a..12c76e3 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -739,7 +739,7 @@ void SectorStreamReader::toHdf5DataCubeFormat(h5::H5ReadWrite& writer)
     size_t counts[4] = { 1, 1, b.header.frameDimensions.second,
                          b.header.frameDimensions.first };
     for (unsigned i = 0; i < b.header.imagesInBlock; i++) {
-      auto pos = b.header.imageNumbers[0];
+      auto pos = b.header.imageNumbers[i];
       auto offset = i * FRAME_DIMENSIONS.first * FRAME_DIMENSIONS.second;
       auto x = pos % b.header.scanDimensions.first;
       auto y = pos / b.header.scanDimensions.first;
-- 
2.43.0


From 245f9c0b79f7ae9daee33c4c9b3fbcde950cf58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 20/32] fix: decode flat pixel indices with the frame width

---
 python/stempy/image/__init__.py  | 10 +++++-----
 python/stempy/io/sparse_array.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 2f79621..f75a322 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -417,11 +417,11 @@ def com_v1_kernel(
         return com.reshape((2, *scan_shape))
 
     # Decode coordinates
-    if frame_x & (frame_x - 1) == 0:  # power of 2
-        shift = int(np.log2(frame_x))
+    if frame_y & (frame_y - 1) == 0:  # power of 2
+        shift = int(np.log2(frame_y))
         x = (all_events_concat >> shift).astype(np.float32)
     else:
-        x = (all_events_concat // frame_x).astype(np.float32)
+        x = (all_events_concat // frame_y).astype(np.float32)
 
     if frame_y & (frame_y - 1) == 0:
         mask = frame_y - 1
@@ -529,7 +529,7 @@ def _com_sparse_v0(array, crop_to=None, init_center=None, replace_nans=True):
         ev = np.hstack(frames)
 
         if len(ev) > 0:
-            x = ev // array.frame_shape[0]
+            x = ev // array.frame_shape[1]
             y = ev % array.frame_shape[1]
             mm0 = len(ev)
             
@@ -839,7 +839,7 @@ def virtual_darkfield(array, centers_x, centers_y, radii):
     rs_image = np.zeros((array.shape[0] * array.shape[1],), dtype=array.dtype)
     for ii, events in enumerate(array.data):
         for ev in events:
-            ev_rows = ev // array.frame_shape[0]
+            ev_rows = ev // array.frame_shape[1]
             ev_cols = ev % array.frame_shape[1]
             for cc_0, cc_1, rr in zip(centers_x, centers_y, radii):
                 dist = np.sqrt((ev_rows - cc_1)**2 + (ev_cols - cc_0)**2)
diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 497f13b..d48c7a5 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -630,10 +630,10 @@ class SparseArray:
         # Ravel the data for easier manipulation in this function
         data = self.data.ravel()
 
-        rows = data // self.frame_shape[0] // bin_factor
+        rows = data // self.frame_shape[1] // bin_factor
         cols = data % self.frame_shape[1] // bin_factor
 
-        rows *= (self.frame_shape[0] // bin_factor)
+        rows *= (self.frame_shape[1] // bin_factor)
         rows += cols
 
         new_data = rows
-- 
2.43.0


From 96a86eb69e55e938cf3b8473639144cbf38016ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 21/32] fix: convert between frame dimensions and frame shape

---
 python/stempy/image/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index f75a322..11417a0 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -80,7 +80,7 @@ def create_stem_images(input, inner_radii, outer_radii, scan_dimensions=(0, 0),
     elif isinstance(input, SparseArray):
         imgs = _image.create_stem_images(input.data, inner_radii, outer_radii,
                                          input.scan_shape[::-1],
-                                         input.frame_shape, center)
+                                         input.frame_shape[::-1], center)
     elif all([hasattr(input, x) for x in ecd_attrs]):
         # Handle electron counted data without C++ object
         # Assume this is v1 data and that each frame is one scan position
@@ -341,7 +341,7 @@ def electron_count(reader, darkreference=None, number_of_samples=40,
     kwargs = {
         'data': np_data,
         'scan_shape': data.scan_dimensions[::-1],
-        'frame_shape': data.frame_dimensions,
+        'frame_shape': data.frame_dimensions[::-1],
         'metadata': {'electron_counting': metadata},
     }
     array = SparseArray(**kwargs)
-- 
2.43.0


From 8273a674bf7c5e9c15c5d0d5a52b064a2bb2cbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 22/32] fix: use the reshaped electron counted data for STEM
 images

---
 python/stempy/image/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 11417a0..1669e7b 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -87,7 +87,7 @@ def create_stem_images(input, inner_radii, outer_radii, scan_dimensions=(0, 0),
         data = input.data
         if data.ndim == 1:
             data = data[:, np.newaxis]
-        imgs = _image.create_stem_images(input.data, inner_radii, outer_radii,
+        imgs = _image.create_stem_images(data, inner_radii, outer_radii,
                                          input.scan_dimensions,
                                          input.frame_dimensions, center)
     elif isinstance(input, np.ndarray):
-- 
2.43.0


From b9fc7f73db0da92e871f9a402876b74bd41fd66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 23/32] fix: size real space results by the number of scan
 positions

---
 python/stempy/image/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 1669e7b..023ac32 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -710,7 +710,7 @@ def radial_sum_sparse(sa, center):
             r = np.sqrt((x - center[0]) ** 2 + (y - center[1]) ** 2)
             hh, hhx = np.histogram(r, bins=range(0, num_bins + 1))
             r_sum[ii, :] += hh
-    r_sum = r_sum.reshape((sa.scan_shape[0], sa.scan_shape[1], num_bins))
+    r_sum = r_sum.reshape((*sa.scan_shape, num_bins))
 
     return r_sum
 
@@ -836,7 +836,7 @@ def virtual_darkfield(array, centers_x, centers_y, radii):
     if isinstance(radii, (int, float)):
          radii = (radii,)
 
-    rs_image = np.zeros((array.shape[0] * array.shape[1],), dtype=array.dtype)
+    rs_image = np.zeros((array.num_scans,), dtype=array.dtype)
     for ii, events in enumerate(array.data):
         for ev in events:
             ev_rows = ev // array.frame_shape[1]
-- 
2.43.0


From bb8d07c81319dfe547b6bc0636c3219cf48f9677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 24/32] fix: only use the frame width in the v1 center of mass

---
 python/stempy/image/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 023ac32..8f314c3 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -409,7 +409,7 @@ def com_v1_kernel(
     replace_nans: bool = True,
 ) -> np.ndarray:
     num_scans = scan_shape[0] * scan_shape[1]
-    frame_x, frame_y = frame_shape
+    frame_y = frame_shape[1]
 
     com = np.full((2, num_scans), np.nan, dtype=np.float32)
 
-- 
2.43.0


From 846322a8af9fa8b6788802ed23586040c7c4a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 25/32] fix: support empty scan positions and all numeric types
 in reductions

---
 python/stempy/io/sparse_array.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index d48c7a5..9343476 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -421,7 +421,7 @@ class SparseArray:
             for i, scan_frames in enumerate(self.data):
                 concatenated = np.concatenate(scan_frames)
                 unique, counts = np.unique(concatenated, return_counts=True)
-                ret[i] = np.max(counts)
+                ret[i] = np.max(counts, initial=0)
             return ret.reshape(self.scan_shape)
 
     @_arithmethic_decorators
@@ -452,7 +452,7 @@ class SparseArray:
             dtype = self.dtype
 
         if self._is_scan_axes(axis):
-            ret = np.full(self._frame_shape_flat, np.iinfo(dtype).max, dtype)
+            ret = np.full(self._frame_shape_flat, _max_value(dtype), dtype)
             expanded = np.empty(self._frame_shape_flat, dtype)
             for scan_frames in self.data:
                 expanded[:] = 0
@@ -463,7 +463,7 @@ class SparseArray:
             return ret.reshape(self.frame_shape)
 
         if self._is_frame_axes(axis):
-            ret = np.full(self._scan_shape_flat, np.iinfo(dtype).max, dtype)
+            ret = np.full(self._scan_shape_flat, _max_value(dtype), dtype)
             for i, scan_frames in enumerate(self.data):
                 concatenated = np.concatenate(scan_frames)
                 unique, counts = np.unique(concatenated, return_counts=True)
@@ -550,7 +550,7 @@ class SparseArray:
 
         if isinstance(summed, np.ndarray):
             # Divide in place to avoid a copy
-            summed[:] /= mean_length
+            np.true_divide(summed, mean_length, out=summed, casting='unsafe')
         else:
             # It's a scalar
             summed /= mean_length
@@ -1068,6 +1068,13 @@ def _is_none_slice(x):
     return isinstance(x, slice) and x == NONE_SLICE
 
 
+def _max_value(dtype):
+    # The largest finite value of an integer or floating point dtype
+    if np.issubdtype(dtype, np.floating):
+        return np.finfo(dtype).max
+    return np.iinfo(dtype).max
+
+
 def _warning(msg):
     print(f'Warning: {msg}', file=sys.stderr)
 
-- 
2.43.0


From d10a5ea5bc1d8fc661f609b89600e06f04f978ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 26/32] fix: forget the cached C++ object when an array is
 changed in place

---
 python/stempy/io/sparse_array.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 9343476..533312f 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -364,6 +364,7 @@ class SparseArray:
                              f'{self.frame_shape} into shape {frame_shape}')
 
         # If we made it here, we can perform the reshaping...
+        self._forget_electron_counted_data()
         self.scan_shape = scan_shape
         self.frame_shape = frame_shape
 
@@ -594,6 +595,7 @@ class SparseArray:
                 new_data[scan_position] = np.concatenate(self.data[to_change])
 
         if in_place:
+            self._forget_electron_counted_data()
             self.scan_shape = new_scan_shape
             self.data = new_data
             return self
@@ -691,6 +693,7 @@ class SparseArray:
 
         new_frame_shape = tuple(x // bin_factor for x in self.frame_shape)
         if in_place:
+            self._forget_electron_counted_data()
             self.data = new_data
             self.frame_shape = new_frame_shape
             return self
@@ -705,6 +708,10 @@ class SparseArray:
         }
         return SparseArray(**kwargs)
 
+    def _forget_electron_counted_data(self):
+        # The C++ object no longer describes the data after an in-place change
+        self.__dict__.pop('_electron_counted_data', None)
+
     def __getitem__(self, key):
         scan_slices, frame_slices = self._split_slices(key)
 
-- 
2.43.0


From ad031017bd8047bc8a0b4a9433ea255a8f328518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 27/32] fix: do not share frames with the array returned by
 bin_scans

---
 python/stempy/io/sparse_array.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 533312f..6cd11c6 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -594,6 +594,10 @@ class SparseArray:
                 to_change = all_positions_reshaped[i, :, j, :].ravel()
                 new_data[scan_position] = np.concatenate(self.data[to_change])
 
+        if not in_place:
+            # Do not share the frames with the new array
+            new_data = copy.deepcopy(new_data)
+
         if in_place:
             self._forget_electron_counted_data()
             self.scan_shape = new_scan_shape
-- 
2.43.0


From ebb02c81844e5c43963ed334cc2e1530deda7820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 28/32] fix: deny full expansions through masks and index lists
 too

---
 python/stempy/io/sparse_array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 6cd11c6..68cc379 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -917,7 +917,10 @@ class SparseArray:
 
         result_shape = new_scan_shape + new_frame_shape
 
-        if result_shape == self.shape and not self.allow_full_expand:
+        # A single frame may always be expanded
+        is_full = len(new_scan_shape) > 0 and (
+            np.prod(result_shape) >= np.prod(self.shape))
+        if is_full and not self.allow_full_expand:
             raise FullExpansionDenied('Full expansion is not allowed')
 
         # Create the result
-- 
2.43.0


From 694706f8cdc285eaa7121b038a5070a871df306c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 29/32] fix: keep every frame when cropping the flyback of old
 files

---
 python/stempy/io/sparse_array.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 68cc379..4f2c1ce 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -195,7 +195,9 @@ class SparseArray:
             scan_shape = [scan_positions_group.attrs[x] for x in ['Nx', 'Ny']]
             frame_shape = [frames.attrs[x] for x in ['Nx', 'Ny']]
 
-            if keep_flyback:
+            # The frames of older versions are not sorted by scan position
+            crop_later = not keep_flyback and version < 3
+            if keep_flyback or crop_later:
                 data = frames[()] # load the full data set
                 scan_positions = scan_positions_group[()]
             else:
@@ -239,6 +241,11 @@ class SparseArray:
             }
             data = convert_data_format(**kwargs)
 
+        if crop_later:
+            data = data.reshape((*scan_shape, -1))[:, :-1]
+            scan_shape = (scan_shape[0], scan_shape[1] - 1)
+            data = data.reshape((np.prod(scan_shape), -1))
+
         kwargs = {
             'data': data,
             'scan_shape': scan_shape,
-- 
2.43.0


From 3b7273a785a76a5f472c3e87a86a81ff22455c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 30/32] fix: do not match scan numbers and ids that merely
 start alike

---
 python/stempy/contrib/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/stempy/contrib/__init__.py b/python/stempy/contrib/__init__.py
index a63d631..92d8d13 100644
--- a/python/stempy/contrib/__init__.py
+++ b/python/stempy/contrib/__init__.py
@@ -63,12 +63,12 @@ def get_scan_path_version_0(
 
     file_pattern = ""
     if scan_id is not None:
-        file_pattern = f"*_id{scan_id}*{file_suffix.value}.{filetype}"
+        file_pattern = f"*_id{scan_id}_*{file_suffix.value}.{filetype}"
     elif scan_num is not None:
         file_pattern = (
             f"data_scan{scan_num}_th{th}_electrons{file_suffix.value}.{filetype}"
             if th is not None
-            else f"data_scan{scan_num}*electrons{file_suffix.value}.{filetype}"
+            else f"data_scan{scan_num}_*electrons{file_suffix.value}.{filetype}"
         )
 
     file_path = list(directory.glob(file_pattern))
-- 
2.43.0


From f631612a0a078073ac94a53220af335a29777e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 31/32] fix: record sector locations under the scan position's
 lock

---
 stempy/reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 12c76e3..cfe677f 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -912,11 +912,10 @@ void SectorStreamMultiPassThreadedReader::readHeaders()
       }
       auto& frameMaps = m_scanMap[imageNumber];
 
-      // Protect initialization of the map with the correct mutex
+      // Protect the map, and the locations in it, with the correct mutex
       std::unique_lock<std::mutex> lock(
         *m_scanPositionMutexes[imageNumber].get());
       auto& frameMap = frameMaps[header.frameNumber];
-      lock.unlock();
       auto& sectorLocation = frameMap[sector];
 
       sectorLocation.sector = sector;
@@ -925,6 +924,7 @@ void SectorStreamMultiPassThreadedReader::readHeaders()
       sectorLocation.streamIndex = sectorStreamIndex;
 #endif
       sectorLocation.offset = stream->tellg();
+      lock.unlock();
       stream->seekg(dataSize * sizeof(uint16_t), stream->cur);
     }
   }
-- 
2.43.0


From a8b4d675d00daffb6babb7a39292fdf6f2230f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 32/32] fix: start a full read of the threaded reader from the
 beginning

---
 stempy/reader.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index dfb7ee8..5ea150a 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -383,6 +383,9 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
   m_futures.clear();
   m_streamQueue = decltype(m_streamQueue)();
 
+  // Start from the beginning, even if we have been read before
+  reset();
+
   auto streamsIterator = m_streams.begin();
 
   while (streamsIterator != m_streams.end()) {
-- 
2.43.0

