From b08cc5706b2560c501b02445dfdaf0f571445815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 001/118] fix: stop BlockList ranges at their end position
 (InStream::readString crashed on pipes)

---
 .../ply-runtime/container/BlockList.cpp       |  3 ++-
 .../runtime/ply-runtime/container/BlockList.h | 20 ++++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
index f505e16..b5943fe 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
@@ -113,7 +113,8 @@ PLY_NO_INLINE String BlockList::toString(Ref&& start, const WeakRef& end) {
 
     // Check for special case: When there is only one block and only one reference to the block,
     // we can truncate this block and return it as a String directly.
-    if (!start.block->nextBlock && start.block->refCount == 1 && start.block->bytes == start.byte) {
+    if (!end.block && !start.block->nextBlock && start.block->refCount == 1 &&
+        start.block->bytes == start.byte) {
         u32 numBytes = start.block->numBytesUsed;
         char* bytes = (char*) PLY_HEAP.realloc(start.byte, numBytes);
         String result = String::adopt(bytes, numBytes);
diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
index f002996..303cc19 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
@@ -91,6 +91,9 @@ struct BlockList {
         PLY_INLINE bool operator!=(const WeakRef& other) const {
             return this->block != other.block || this->byte != other.byte;
         }
+        PLY_INLINE u64 fileOffset() const {
+            return this->block->fileOffset + uptr(this->byte - this->block->bytes);
+        }
         PLY_INLINE WeakRef normalized() const {
             if (this->block->nextBlock && (this->byte == this->block->unused())) {
                 return {this->block->nextBlock, this->block->start()};
@@ -156,13 +159,20 @@ struct BlockList {
             this->curPos = this->curPos.block->weakRefToNext();
         }
         PLY_INLINE bool operator!=(const RangeForIterator&) const {
-            return this->curPos != this->endPos;
+            if (!this->curPos.block)
+                return false;
+            // endPos might belong to an overlay block that isn't reachable from the starting block,
+            // so compare file offsets.
+            return !this->endPos.block || this->curPos.fileOffset() < this->endPos.fileOffset();
         }
         PLY_INLINE StringView operator*() const {
-            return StringView::fromRange(this->curPos.byte,
-                                         (this->curPos.block == this->endPos.block)
-                                             ? this->endPos.byte
-                                             : this->curPos.block->unused());
+            StringView view =
+                StringView::fromRange(this->curPos.byte, this->curPos.block->unused());
+            if (this->endPos.block) {
+                u64 numBytesToEnd = this->endPos.fileOffset() - this->curPos.fileOffset();
+                view.numBytes = (u32) min<u64>(view.numBytes, numBytesToEnd);
+            }
+            return view;
         }
     };
 
-- 
2.43.0


From 636c4462ee0e80dd1e93d79efe5df0304c7a30df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 002/118] fix: define InStream's declared move assignment
 operator

---
 repos/plywood/src/runtime/ply-runtime/io/InStream.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
index ca9a764..c332eda 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
@@ -36,6 +36,12 @@ PLY_NO_INLINE InStream::InStream(OptionallyOwned<InPipe>&& inPipe, u32 blockSize
     this->endByte = this->block->bytes;
 }
 
+PLY_NO_INLINE void InStream::operator=(InStream&& other) {
+    PLY_ASSERT(this != &other);
+    this->~InStream();
+    new (this) InStream{std::move(other)};
+}
+
 PLY_NO_INLINE void InStream::destructInternal() {
     PLY_ASSERT(this->status.type != (u32) Type::View);
     destruct(this->block);
-- 
2.43.0


From 3cc734ef88107b2d10bed2001ee99df47f9ea2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 003/118] fix: InStream::read and skip deliver buffered bytes
 after end-of-file was seen

---
 repos/plywood/src/runtime/ply-runtime/io/InStream.cpp | 6 ------
 repos/plywood/src/runtime/ply-runtime/io/InStream.h   | 4 ++--
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
index c332eda..8306773 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
@@ -189,9 +189,6 @@ PLY_NO_INLINE void InStream::rewind(const BlockList::WeakRef& pos) {
 }
 
 PLY_NO_INLINE bool InStream::readSlowPath(MutableStringView dst) {
-    if (this->status.eof)
-        return false;
-
     while (dst.numBytes > 0) {
         if (!this->tryMakeBytesAvailable()) {
             memset(dst.bytes, 0, dst.numBytes);
@@ -207,9 +204,6 @@ PLY_NO_INLINE bool InStream::readSlowPath(MutableStringView dst) {
 }
 
 PLY_NO_INLINE bool InStream::skipSlowPath(u32 numBytes) {
-    if (this->status.eof)
-        return false;
-
     while (numBytes > 0) {
         if (!this->tryMakeBytesAvailable()) {
             return false;
diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.h b/repos/plywood/src/runtime/ply-runtime/io/InStream.h
index 3127bd6..4016b8b 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.h
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.h
@@ -243,7 +243,7 @@ public:
         // implement memcpy() as a MOV:
         memcpy(dst.bytes, this->curByte, dst.numBytes);
         this->curByte += dst.numBytes;
-        return this->status.eof == 0;
+        return true;
     }
 
     PLY_DLL_ENTRY bool skipSlowPath(u32 numBytes);
@@ -259,7 +259,7 @@ public:
             return this->skipSlowPath(numBytes);
         }
         this->curByte += numBytes;
-        return this->status.eof == 0;
+        return true;
     }
 
     /*!
-- 
2.43.0


From 852f72f1cca88b504191e24301659178b14b3b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 004/118] fix: InStream requests of several bytes across block
 boundaries lost or corrupted data

---
 .../src/runtime/ply-runtime/io/InStream.cpp   | 157 +++++++++---------
 1 file changed, 78 insertions(+), 79 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
index 8306773..3f58b0e 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
@@ -71,96 +71,95 @@ PLY_NO_INLINE u32 InStream::tryMakeBytesAvailableInternal(u32 numRequestedBytes)
         return 0;
     }
 
-    Reference<BlockList::Footer> overlayBlock;
-    u32 numBytesNeededToCompleteRequest = numRequestedBytes;
-    for (;;) {
-        // this->curByte points to the read position in the current block.
-        // this->endByte points to the write position in the current block.
-        PLY_ASSERT(this->block->viewUsedBytes().contains(this->curByte));
-        PLY_ASSERT(this->endByte == this->block->unused());
-
-        u32 numUnreadBytesInCurrentBlock = safeDemote<u32>(this->block->unused() - this->curByte);
-        if (numBytesNeededToCompleteRequest <= numUnreadBytesInCurrentBlock)
-            break; // Current block has enough data to fulfill the remainder of the request.
-
-        if (this->block->nextBlock) {
-            // Another block follows this one in the list, and we already know, from the previous
-            // check, that this block doesn't contain enough unread data to fulfill the rest of the
-            // request.
-            PLY_ASSERT(numUnreadBytesInCurrentBlock < numBytesNeededToCompleteRequest);
-            if (numUnreadBytesInCurrentBlock > 0) {
-                // Copy unread data to overlayBlock (creating overlayBlock first, if needed).
-                if (!overlayBlock) {
-                    PLY_ASSERT(numBytesNeededToCompleteRequest == numRequestedBytes);
-                    overlayBlock = BlockList::createOverlayBlock({this->block, this->block->bytes},
-                                                                 numRequestedBytes);
-                }
-                if (overlayBlock) {
-                    memcpy(overlayBlock->bytes + numRequestedBytes -
-                               numBytesNeededToCompleteRequest,
-                           this->curByte, numUnreadBytesInCurrentBlock);
-                }
-                numBytesNeededToCompleteRequest -= numUnreadBytesInCurrentBlock;
+    // this->curByte points to the read position in the current block.
+    // this->endByte points to the end of the valid data in the current block.
+    PLY_ASSERT(uptr(this->curByte - this->block->bytes) <= this->block->numBytesUsed);
+    PLY_ASSERT(this->endByte == this->block->unused());
+
+    // Advance past blocks that have already been read completely.
+    while (this->curByte == this->block->unused() && this->block->nextBlock) {
+        BlockList::WeakRef next = this->block->weakRefToNext();
+        this->block = next.block;
+        this->curByte = next.byte;
+        this->endByte = this->block->unused();
+    }
+
+    u32 numUnreadBytes = safeDemote<u32>(this->block->unused() - this->curByte);
+    if (numUnreadBytes >= numRequestedBytes)
+        return numUnreadBytes;
+
+    if (!this->block->nextBlock) {
+        // This is the last block. Make sure it has enough storage to fulfill the request.
+        if (safeDemote<u32>(this->block->end() - this->curByte) < numRequestedBytes) {
+            u32 newBlockSize = max(numRequestedBytes, this->getBlockSize());
+            if (numUnreadBytes == 0) {
+                BlockList::appendBlockWithRecycle(this->block, newBlockSize);
+            } else {
+                // Append a block that begins with a copy of the unread bytes in this block.
+                Reference<BlockList::Footer> newBlock = BlockList::createOverlayBlock(
+                    {this->block, const_cast<char*>(this->curByte)}, newBlockSize);
+                memcpy(newBlock->bytes, this->curByte, numUnreadBytes);
+                newBlock->numBytesUsed = numUnreadBytes;
+                newBlock->prevBlock = this->block;
+                this->block->nextBlock = newBlock;
+                this->block = std::move(newBlock);
             }
-            // Advance to next block.
-            BlockList::Footer* nextBlock = this->block->nextBlock;
-            u32 offsetIntoNextBlock =
-                this->block->numBytesUsed -
-                safeDemote<u32>(nextBlock->fileOffset - this->block->fileOffset);
-            this->block = nextBlock;
-            PLY_ASSERT(offsetIntoNextBlock <= nextBlock->numBytesUsed);
-            this->curByte = nextBlock->bytes + offsetIntoNextBlock;
-            this->endByte = nextBlock->bytes + nextBlock->numBytesUsed;
-        } else {
-            u32 unreadStorageInCurrentBlock = safeDemote<u32>(this->block->end() - this->curByte);
-            if (unreadStorageInCurrentBlock < numBytesNeededToCompleteRequest) {
-                // Append a new block
-                BlockList::appendBlockWithRecycle(this->block, max(numBytesNeededToCompleteRequest, this->getBlockSize()));
-                this->curByte = this->block->bytes;
-                this->endByte = this->block->bytes; // nothing written to this block yet
+            this->curByte = this->block->bytes;
+            this->endByte = this->block->unused();
+        }
+
+        // Read data from the underlying pipe.
+        while (numUnreadBytes < numRequestedBytes) {
+            u32 bytesRead = this->inPipe->readSome(this->block->viewUnusedBytes());
+            if (bytesRead == 0) {
+                this->status.eof = 1;
+                break;
             }
-            // Current block has enough storage to fulfill the remainder of the request.
-            break;
+            this->block->numBytesUsed += bytesRead;
+            this->endByte = this->block->unused();
+            numUnreadBytes += bytesRead;
         }
+        return numUnreadBytes;
     }
 
-    // Current block has enough storage to fulfill the remainder of the request, but we still might
-    // need to fill it with data from the underlying pipe.
-    PLY_ASSERT(numBytesNeededToCompleteRequest <=
-               safeDemote<u32>(this->block->end() - this->curByte));
-    u32 numBytesAvailableToReadInBlock;
+    // The request spans multiple blocks. Copy the requested bytes to a contiguous overlay block
+    // that's followed by the block containing the byte after the last requested one.
+    Reference<BlockList::Footer> overlayBlock =
+        BlockList::createOverlayBlock({this->block, const_cast<char*>(this->curByte)},
+                                      max(numRequestedBytes, this->getBlockSize()));
+    BlockList::Footer* srcBlock = this->block;
+    const char* srcByte = this->curByte;
     for (;;) {
-        numBytesAvailableToReadInBlock =
-            safeDemote<u32>(this->block->unused() - this->curByte);
-        if (numBytesAvailableToReadInBlock >= numBytesNeededToCompleteRequest)
-            break; // Current block has enough data to fulfill remainder of request.
-
-        PLY_ASSERT(!this->block->nextBlock); // We can only write to the end of the block list.
-        // Read more data from the underlying pipe.
-        u32 bytesRead = this->inPipe->readSome(this->block->viewUnusedBytes());
+        u32 numBytesToCopy = min(safeDemote<u32>(srcBlock->unused() - srcByte),
+                                 numRequestedBytes - overlayBlock->numBytesUsed);
+        memcpy(overlayBlock->unused(), srcByte, numBytesToCopy);
+        overlayBlock->numBytesUsed += numBytesToCopy;
+        srcByte += numBytesToCopy;
+        if (overlayBlock->numBytesUsed >= numRequestedBytes)
+            break;
+        if (srcBlock->nextBlock) {
+            BlockList::WeakRef next = srcBlock->weakRefToNext();
+            srcBlock = next.block;
+            srcByte = next.byte;
+            continue;
+        }
+        // Reached the last block. Read more data from the underlying pipe.
+        if (srcBlock->viewUnusedBytes().numBytes == 0) {
+            srcBlock = BlockList::appendBlock(srcBlock, this->getBlockSize());
+            srcByte = srcBlock->bytes;
+        }
+        u32 bytesRead = this->inPipe->readSome(srcBlock->viewUnusedBytes());
         if (bytesRead == 0) {
             this->status.eof = 1;
             break;
         }
-        this->block->numBytesUsed += bytesRead;
-        this->endByte += bytesRead;
-        PLY_ASSERT(this->endByte == this->block->unused());
-    }
-
-    u32 numBytesToReturn =
-        numRequestedBytes - numBytesNeededToCompleteRequest + numBytesAvailableToReadInBlock;
-
-    // If we created a overlayBlock, finish copying data to it now, and expose the overlayBlock to
-    // the caller.
-    if (overlayBlock) {
-        PLY_ASSERT(numBytesNeededToCompleteRequest > 0);
-        memcpy(overlayBlock->bytes + numRequestedBytes - numBytesNeededToCompleteRequest,
-               this->curByte, numBytesNeededToCompleteRequest);
-        this->curByte = overlayBlock->bytes;
-        this->endByte = overlayBlock->bytes + numBytesToReturn;
+        srcBlock->numBytesUsed += bytesRead;
     }
-
-    return numBytesToReturn;
+    overlayBlock->nextBlock = srcBlock;
+    this->block = std::move(overlayBlock);
+    this->curByte = this->block->bytes;
+    this->endByte = this->block->unused();
+    return this->block->numBytesUsed;
 }
 
 PLY_NO_INLINE u64 InStream::getSeekPos() const {
-- 
2.43.0


From 878177abff1e84e4075ac0fb8bcabf28a3e228f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 005/118] fix: OutStream::writeByte reported success after the
 stream had failed

---
 repos/plywood/src/runtime/ply-runtime/io/OutStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/OutStream.h b/repos/plywood/src/runtime/ply-runtime/io/OutStream.h
index 3bc3866..35f5996 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/OutStream.h
+++ b/repos/plywood/src/runtime/ply-runtime/io/OutStream.h
@@ -222,7 +222,7 @@ public:
             return false;
         *this->curByte = byte;
         this->curByte++;
-        return true;
+        return this->status.eof == 0;
     }
 
     PLY_DLL_ENTRY bool writeSlowPath(StringView src);
-- 
2.43.0


From 2bf2c4bf63851c08088812b9c0f4671e26b237d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:22 +0000
Subject: [PATCH 006/118] fix: flushing or destroying an OutStream after a
 failed reservation asserted

---
 repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
index 85938ed..df43182 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
@@ -60,7 +60,8 @@ PLY_NO_INLINE bool OutStream::flushInternal() {
         return true;
 
     // this->block->numBytesUsed is the last flushed offset
-    PLY_ASSERT(this->endByte == this->block->bytes + this->block->blockSize);
+    // endByte is also moved back to curByte after a failed write
+    PLY_ASSERT(this->status.eof || this->endByte == this->block->bytes + this->block->blockSize);
     u32 newWritePos = safeDemote<u32>(this->curByte - this->block->bytes);
     PLY_ASSERT(newWritePos >= this->block->numBytesUsed);
     PLY_ASSERT(newWritePos <= this->block->blockSize);
-- 
2.43.0


From a78cd0f45cfc6571c96353c69e3026e7bb6d2084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 007/118] fix: UTF-8 decoder reported bytes that cannot start a
 sequence as truncated

---
 repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp b/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
index 097ec1f..e3f26df 100644
--- a/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
@@ -62,6 +62,8 @@ PLY_NO_INLINE DecodeResult UTF8::decodePointSlowPath(StringView view) {
         }
 
         default:
+            // A stray continuation byte, or a byte that never appears in UTF-8
+            result.status = DecodeResult::Status::Invalid;
             break;
     }
 
-- 
2.43.0


From 89d402af98c353713ffd411a510743bf5a62abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 008/118] fix: TextConverter lost the middle bytes of sequences
 that arrive in three or more pieces

---
 .../src/runtime/ply-runtime/io/text/TextConverter.cpp      | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
index 2c0fdf2..d2d7eea 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
@@ -62,9 +62,12 @@ PLY_NO_INLINE bool TextConverter::convert(MutableStringView* dstBuf, StringView*
             PLY_ASSERT(this->srcSmallBuf.numBytes < 4); // Sanity check
             PLY_ASSERT((decoded.point >= 0) == (decoded.numBytes > 0));
             // If flush is true and there's an (invalid) point to consume, we'll consume it below.
-            // Otherwise, don't consume anything and return from here:
-            if (!(flush && decoded.point >= 0))
+            // Otherwise, keep what we have so far and return from here:
+            if (!(flush && decoded.point >= 0)) {
+                this->srcSmallBuf.numBytes += numCopiedFromSrc;
+                srcBuf->offsetHead(numCopiedFromSrc);
                 return wroteAnything;
+            }
         }
         PLY_ASSERT((decoded.point >= 0) && (decoded.numBytes > 0));
 
-- 
2.43.0


From c7c379df8bc4193f6483c19df7df4814544f553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 009/118] fix: readFrom asserted on an incomplete code unit at
 the end of the input

---
 .../plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
index d2d7eea..acb171f 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
@@ -182,7 +182,8 @@ PLY_NO_INLINE u32 TextConverter::readFrom(InStream* ins, MutableStringView* dstB
             break;
         // If input was exhausted, stop.
         if (flush) {
-            PLY_ASSERT(ins->numBytesAvailable() == 0);
+            // An incomplete code unit at the end of the input can't be converted; skip it.
+            ins->curByte = ins->endByte;
             break;
         }
     }
-- 
2.43.0


From a234c41b551239d1c60d88ce66b9bc85a452a036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 010/118] fix: advancing from an overlay block to an
 overlapping block asserted

---
 .../src/runtime/ply-runtime/container/BlockList.cpp       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
index b5943fe..34e597f 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
@@ -33,9 +33,11 @@ PLY_NO_INLINE BlockList::WeakRef BlockList::Footer::weakRefToNext() const {
     BlockList::WeakRef result;
     result.block = this->nextBlock;
     if (result.block) {
-        u32 fileDelta = safeDemote<u32>((s64) result.block->fileOffset - this->fileOffset);
-        PLY_ASSERT(fileDelta <= this->numBytesUsed);
-        result.byte = result.block->bytes + (this->numBytesUsed - fileDelta);
+        // The next block can begin before this one does when this one is an overlay that was
+        // created inside the region where the next one overlaps its predecessor.
+        s64 offset = s64(this->fileOffset + this->numBytesUsed) - s64(result.block->fileOffset);
+        PLY_ASSERT(offset >= 0);
+        result.byte = result.block->bytes + offset;
         PLY_ASSERT(result.block->viewUsedBytes().contains(result.byte));
     }
     return result;
-- 
2.43.0


From 302da755fd31ce59fcdab9064e90b71ba26338ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:17 +0000
Subject: [PATCH 011/118] fix: parsing an identifier with '$' or '-' allowed
 succeeded on empty text

---
 repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index b3bb437..cc11050 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -395,7 +395,7 @@ bool fmt::FormatParser<fmt::Identifier>::parse(InStream* ins, const fmt::Identif
         ins->advanceByte();
     }
 
-    if (mask[1] == 0) {
+    if (first) {
         ins->status.parseError = 1;
         return false;
     }
-- 
2.43.0


From d9500df424cf0f41655e9fd7ee5fdf3eb86b6a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:17 +0000
Subject: [PATCH 012/118] fix: an empty quoted string at the end of the input
 was an error

---
 repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index cc11050..da88111 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -259,6 +259,8 @@ String fmt::FormatParser<fmt::QuotedString>::parse(InStream* ins, const fmt::Quo
     bool multiline = false;
     for (;;) {
         if (!ins->tryMakeBytesAvailable()) {
+            if (quoteRun == 2 && !multiline)
+                break; // empty string at the end of the file
             handleError(fmt::QuotedString::UnexpectedEndOfFile);
             break; // end of string
         }
-- 
2.43.0


From 3218bcf839fc508df3c84bbeeeb08fa58f8e436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:17 +0000
Subject: [PATCH 013/118] fix: parsing fractions with many digits in some
 radices gave wrong values

---
 repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index da88111..3d0c01a 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -188,7 +188,7 @@ PLY_NO_INLINE double fmt::TypeParser<double>::parse(InStream* ins, Radix radix)
                 break;
             ins->advanceByte();
             u64 denomWithNextDigit = denom * radix.base;
-            if (denomWithNextDigit < denom) {
+            if (denom > Limits<u64>::Max / radix.base) {
                 // denominator overflowed
                 double ooDenom = 1.0 / denom;
                 value += significance * numer * ooDenom;
-- 
2.43.0


From 96418738ac8fedd518a2765cc16dc1d7999f5d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:17 +0000
Subject: [PATCH 014/118] fix: CmdLineArg_WinCrt dropped trailing backslashes
 and empty arguments

---
 .../src/runtime/ply-runtime/io/impl/FormatString.cpp        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
index fa6aa5c..9cff669 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
@@ -295,7 +295,7 @@ PLY_NO_INLINE void fmt::TypePrinter<fmt::XMLEscape>::print(OutStream* outs, cons
 PLY_NO_INLINE void
 fmt::TypePrinter<fmt::CmdLineArg_WinCrt>::print(OutStream* outs,
                                                 const fmt::CmdLineArg_WinCrt& value) {
-    bool needsQuote = false;
+    bool needsQuote = (value.view.numBytes == 0);
     const char* end = value.view.end();
     for (const char* cur = value.view.bytes; cur < end; cur++) {
         if (isWhite(*cur) || *cur == '"') {
@@ -322,6 +322,10 @@ fmt::TypePrinter<fmt::CmdLineArg_WinCrt>::print(OutStream* outs,
                 *outs << c;
             }
         }
+        // Backslashes before the closing quote must be doubled
+        for (; backslashCount > 0; backslashCount--) {
+            *outs << "\\\\";
+        }
         *outs << '"';
     } else {
         *outs << value.view;
-- 
2.43.0


From 3c8dcf535694cf553fc486093d28b09b6c2ae4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:55 +0000
Subject: [PATCH 015/118] fix: parsing and printing the smallest s64 relied on
 signed overflow

---
 .../plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp | 2 +-
 repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
index 9cff669..df13ff9 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
@@ -43,7 +43,7 @@ PLY_NO_INLINE void printString(OutStream* outs, s64 value, u32 radix, bool capit
         printString(outs, (u64) value, radix, capitalize);
     } else {
         outs->writeByte('-');
-        printString(outs, (u64) -value, radix, capitalize);
+        printString(outs, 0 - (u64) value, radix, capitalize);
     }
 }
 
diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index 3d0c01a..4346f65 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -123,11 +123,10 @@ PLY_NO_INLINE s64 fmt::TypeParser<s64>::parse(InStream* ins, Radix radix) {
 
     u64 unsignedComponent = fmt::TypeParser<u64>::parse(ins, radix);
     if (negate) {
-        s64 result = -(s64) unsignedComponent;
-        if (result > 0) {
+        if (unsignedComponent > u64(Limits<s64>::Max) + 1) {
             ins->status.parseError = 1;
         }
-        return result;
+        return (s64) (0 - unsignedComponent);
     } else {
         s64 result = unsignedComponent;
         if (result < 0) {
-- 
2.43.0


From 6d24fed9b72187786f5e8cf4fffe1afa66047d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:37 +0000
Subject: [PATCH 016/118] fix: String::reversedUTF8 called a function that does
 not exist

---
 repos/plywood/src/runtime/ply-runtime/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/string/String.h b/repos/plywood/src/runtime/ply-runtime/string/String.h
index a42cd5c..cabdad8 100644
--- a/repos/plywood/src/runtime/ply-runtime/string/String.h
+++ b/repos/plywood/src/runtime/ply-runtime/string/String.h
@@ -285,7 +285,7 @@ PLY_INLINE String StringMixin<Derived>::reversedBytes() const {
 
 template <typename Derived>
 PLY_INLINE String StringMixin<Derived>::reversedUTF8() const {
-    return static_cast<const Derived*>(this)->view().reversedUTF();
+    return static_cast<const Derived*>(this)->view().reversedUTF8();
 }
 
 template <typename Derived>
-- 
2.43.0


From 660cdf452b72eb2f93c4e52b6cda77493086af14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:59 +0000
Subject: [PATCH 017/118] fix: assigning a String or HybridString to itself
 read freed memory

---
 repos/plywood/src/runtime/ply-runtime/string/String.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/string/String.h b/repos/plywood/src/runtime/ply-runtime/string/String.h
index cabdad8..92a2369 100644
--- a/repos/plywood/src/runtime/ply-runtime/string/String.h
+++ b/repos/plywood/src/runtime/ply-runtime/string/String.h
@@ -110,8 +110,7 @@ struct String : StringMixin<String> {
     is reset to an empty string.
     */
     PLY_INLINE void operator=(const String& other) {
-        this->~String();
-        new (this) String{other.view()};
+        *this = other.view();
     }
     PLY_INLINE void operator=(String&& other) {
         this->~String();
@@ -391,8 +390,10 @@ struct HybridString : StringMixin<HybridString> {
     Copy assignment operator.
     */
     PLY_INLINE void operator=(const HybridString& other) {
-        this->~HybridString();
-        new (this) HybridString(other);
+        if (this != &other) {
+            this->~HybridString();
+            new (this) HybridString(other);
+        }
     }
 
     /*!
-- 
2.43.0


From 28bcd9b6f190f8e368684710a958281230efcdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:18 +0000
Subject: [PATCH 018/118] fix: FixedArray built from an initializer list never
 destructed its default items

---
 repos/plywood/src/runtime/ply-runtime/container/FixedArray.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/FixedArray.h b/repos/plywood/src/runtime/ply-runtime/container/FixedArray.h
index fb71ad0..2332d1d 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/FixedArray.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/FixedArray.h
@@ -36,6 +36,8 @@ struct FixedArray {
 
     PLY_INLINE FixedArray(InitList<T> args) {
         PLY_ASSERT(Size == args.size());
+        // The items are already default constructed at this point:
+        subst::destructArray(this->items, Size);
         subst::constructArrayFrom(this->items, args.begin(), Size);
     }
 
-- 
2.43.0


From b258d54427f3a74a0ece02373f8e08cacc82a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:18 +0000
Subject: [PATCH 019/118] fix: rfind asserted on an empty array

---
 repos/plywood/src/runtime/ply-runtime/algorithm/Find.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/algorithm/Find.h b/repos/plywood/src/runtime/ply-runtime/algorithm/Find.h
index f0c85e0..2bfe701 100644
--- a/repos/plywood/src/runtime/ply-runtime/algorithm/Find.h
+++ b/repos/plywood/src/runtime/ply-runtime/algorithm/Find.h
@@ -38,7 +38,7 @@ PLY_INLINE s32 find(const Arr& arr, const Arg& arg) {
 // rfind
 template <typename T, typename U, std::enable_if_t<IsComparable<T, U>, int> = 0>
 PLY_INLINE s32 rfind(ArrayView<const T> arr, const U& item) {
-    for (s32 i = safeDemote<s32>(arr.numItems - 1); i >= 0; i--) {
+    for (s32 i = safeDemote<s32>(arr.numItems) - 1; i >= 0; i--) {
         if (arr[i] == item)
             return i;
     }
@@ -47,7 +47,7 @@ PLY_INLINE s32 rfind(ArrayView<const T> arr, const U& item) {
 
 template <typename T, typename Callback, std::enable_if_t<IsCallable<Callback, T>, int> = 0>
 PLY_INLINE s32 rfind(ArrayView<const T> arr, const Callback& callback) {
-    for (s32 i = safeDemote<s32>(arr.numItems - 1); i >= 0; i--) {
+    for (s32 i = safeDemote<s32>(arr.numItems) - 1; i >= 0; i--) {
         if (callback(arr[i]))
             return i;
     }
-- 
2.43.0


From f21da3788a87e8888f37896511a3f96a6b4eb51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:59 +0000
Subject: [PATCH 020/118] fix: Array::eraseQuick kept destructed items and
 dropped live ones near the end of the array

---
 repos/plywood/src/runtime/ply-runtime/container/Array.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Array.h b/repos/plywood/src/runtime/ply-runtime/container/Array.h
index 421a2dd..7ef7b21 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Array.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Array.h
@@ -487,9 +487,11 @@ public:
     PLY_NO_INLINE void eraseQuick(u32 pos, u32 count) {
         PLY_ASSERT(pos + count <= this->numItems_);
         subst::destructArray(this->items + pos, count);
+        // Fewer than count items may follow the erased ones
+        u32 numToMove = min(count, this->numItems_ - (pos + count));
         memmove(static_cast<void*>(this->items + pos),
-                static_cast<const void*>(this->items + this->numItems_ - count),
-                count * sizeof(T)); // Underlying type is relocatable
+                static_cast<const void*>(this->items + this->numItems_ - numToMove),
+                numToMove * sizeof(T)); // Underlying type is relocatable
         this->numItems_ -= count;
     }
     /*!
-- 
2.43.0


From 578b593c71a53f274debeacf4a872ab1c345b133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:24 +0000
Subject: [PATCH 021/118] fix: copying an Array onto itself read uninitialized
 items

---
 repos/plywood/src/runtime/ply-runtime/container/Array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Array.h b/repos/plywood/src/runtime/ply-runtime/container/Array.h
index 7ef7b21..b85dbda 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Array.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Array.h
@@ -139,6 +139,8 @@ public:
         arr = other;
     */
     PLY_INLINE void operator=(const Array& other) {
+        if (this == &other)
+            return;
         ArrayView<T> arrayToFree = {this->items, this->numItems_};
         new (this) Array{other};
         subst::destructArray(arrayToFree.items, arrayToFree.numItems);
-- 
2.43.0


From f91d81917ef1374a50abd43e9c75b7b19d05ff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:02 +0000
Subject: [PATCH 022/118] fix: Array::adopt left the capacity uninitialized

---
 repos/plywood/src/runtime/ply-runtime/container/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Array.h b/repos/plywood/src/runtime/ply-runtime/container/Array.h
index b85dbda..ddf84a4 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Array.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Array.h
@@ -50,7 +50,7 @@ private:
     template <typename>
     friend class Array;
 
-    PLY_INLINE Array(T* items, u32 numItems, u32 allocator)
+    PLY_INLINE Array(T* items, u32 numItems, u32 allocated)
         : items{items}, numItems_{numItems}, allocated{allocated} {
     }
 
-- 
2.43.0


From 6057c06f027eaf4fe43291423f2baacf921ceac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:53 +0000
Subject: [PATCH 023/118] fix: erasing from a HashMap could link cells at
 distance 255, which marks a cell unused

---
 repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp b/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
index 2fa0408..fb06c89 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
@@ -302,7 +302,7 @@ PLY_NO_INLINE void HashMap::erase(FindInfo* info, const Callbacks* cb, u8*& link
         CellGroup* nextGroup = m_cellGroups + ((nextIdx & m_sizeMask) >> 2);
         if (prevLink) {
             u32 prevIdx = idx - *prevLink;
-            if (nextIdx - prevIdx < 256) {
+            if (nextIdx - prevIdx < EmptySlot) {
                 // Just redirect the previous link
                 cb->destruct(PLY_PTR_OFFSET(curGroup + 1, cb->itemSize * (idx & 3)));
                 *curLink = EmptySlot;
-- 
2.43.0


From 5f90fee72d21a3ed456d334c66fb219f805051d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 024/118] fix: HashMap erased and advanced through cell groups
 at wrong addresses

---
 repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp b/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
index fb06c89..1ffa504 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
@@ -106,7 +106,8 @@ PLY_NO_INLINE HashMap::FindResult HashMap::findNext(FindInfo* info, const Callba
     u8 delta = *info->prevLink;
     while (delta) {
         info->idx += delta;
-        group = m_cellGroups + ((info->idx & m_sizeMask) >> 2);
+        group = (CellGroup*) PLY_PTR_OFFSET(m_cellGroups,
+                                            cellGroupSize * ((info->idx & m_sizeMask) >> 2));
         if (group->hashes[info->idx & 3] == hash) {
             void* item = PLY_PTR_OFFSET(group + 1, cb->itemSize * (info->idx & 3));
             if (cb->match(item, key, context)) {
@@ -299,7 +300,8 @@ PLY_NO_INLINE void HashMap::erase(FindInfo* info, const Callbacks* cb, u8*& link
             break;
         }
         u32 nextIdx = idx + *curLink;
-        CellGroup* nextGroup = m_cellGroups + ((nextIdx & m_sizeMask) >> 2);
+        CellGroup* nextGroup = (CellGroup*) PLY_PTR_OFFSET(
+            m_cellGroups, cellGroupSize * ((nextIdx & m_sizeMask) >> 2));
         if (prevLink) {
             u32 prevIdx = idx - *prevLink;
             if (nextIdx - prevIdx < EmptySlot) {
-- 
2.43.0


From 14a1b48182cb245be07a86bc63e37c1836acd320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:57 +0000
Subject: [PATCH 025/118] fix: BTree inserted an item before existing items
 with the same index in the next leaf

---
 .../src/runtime/ply-runtime/container/BTree.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/BTree.h b/repos/plywood/src/runtime/ply-runtime/container/BTree.h
index 13012f0..0d39713 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BTree.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/BTree.h
@@ -69,6 +69,22 @@ private:
             return links[lo].child;
         }
 
+        Node* getLastChildNotGreaterThan(const Index& index) {
+            PLY_ASSERT(!isLeaf);
+            PLY_ASSERT(size > 0);
+            Link* links = getLinks();
+            u32 lo = 0;
+            u32 hi = size - 1;
+            while (lo < hi) {
+                u32 mid = (lo + hi + 1) / 2;
+                if (!Traits::less(index, links[mid].index))
+                    lo = mid;
+                else
+                    hi = mid - 1;
+            }
+            return links[lo].child;
+        }
+
         u32 findLink(Node* child) {
             PLY_ASSERT(!isLeaf);
             u32 s = size;
@@ -611,7 +627,8 @@ public:
             m_root = Node::createLeaf();
         Node* node = m_root;
         while (!node->isLeaf) {
-            node = node->getLastChildLessThan(index);
+            // Like findInsertPos, go past any existing items with the same index
+            node = node->getLastChildNotGreaterThan(index);
         }
         u32 pos = node->findInsertPos(index);
         if (node->size >= Traits::NodeCapacity) {
-- 
2.43.0


From f3b91c99c84d58813d63c41fe5f5a7e684dcb25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:46 +0000
Subject: [PATCH 026/118] fix: WeakSequenceRef::beginRead didn't compile for
 non-const items

---
 repos/plywood/src/runtime/ply-runtime/container/Sequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Sequence.h b/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
index 4695305..2cf8cb3 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
@@ -45,7 +45,7 @@ public:
             // numBytesAvailable should always be a multiple of sizeof(T).
             PLY_ASSERT(numBytesAvailable >= sizeof(T));
         }
-        return ArrayView<T>::from(StringView{this->impl.byte, numBytesAvailable});
+        return ArrayView<T>{(T*) this->impl.byte, (u32) (numBytesAvailable / sizeof(T))};
     }
     PLY_INLINE void endRead(u32 numItems) {
         PLY_ASSERT(this->impl.block->unused() - this->impl.byte >= sizeof(T) * numItems);
-- 
2.43.0


From f9e5cf417a0c8a8c8fde595a75f7a2bd4beb4045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:46 +0000
Subject: [PATCH 027/118] fix: BlockList::WeakRef::normalized paired the next
 block with the current block's start

---
 repos/plywood/src/runtime/ply-runtime/container/BlockList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
index 303cc19..d6d4d71 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
@@ -96,7 +96,7 @@ struct BlockList {
         }
         PLY_INLINE WeakRef normalized() const {
             if (this->block->nextBlock && (this->byte == this->block->unused())) {
-                return {this->block->nextBlock, this->block->start()};
+                return {this->block->nextBlock, this->block->nextBlock->start()};
             }
             return *this;
         }
-- 
2.43.0


From e09e22b280fe8a9d7b34dd6d038f83bcb9985bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:57 +0000
Subject: [PATCH 028/118] fix: Sequence::truncate didn't destruct the items it
 cut off

---
 .../src/runtime/ply-runtime/container/Sequence.cpp        | 8 +++++++-
 .../plywood/src/runtime/ply-runtime/container/Sequence.h  | 5 +++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Sequence.cpp b/repos/plywood/src/runtime/ply-runtime/container/Sequence.cpp
index 8781daf..6316499 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Sequence.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/Sequence.cpp
@@ -49,7 +49,13 @@ PLY_NO_INLINE void popTail(BlockList::Footer** tail, u32 numBytes, void (*destru
     }
 }
 
-PLY_NO_INLINE void truncate(BlockList::Footer** tail, const BlockList::WeakRef& to) {
+PLY_NO_INLINE void truncate(BlockList::Footer** tail, const BlockList::WeakRef& to,
+                            void (*destructViewAs)(StringView)) {
+    // Destruct the items that will be cut off.
+    destructViewAs({to.byte, (u32) (to.block->unused() - to.byte)});
+    for (BlockList::Footer* block = to.block->nextBlock; block; block = block->nextBlock) {
+        destructViewAs(block->viewUsedBytes());
+    }
     if (to.byte == to.block->start() && to.block->prevBlock) {
         *tail = to.block->prevBlock;
     } else  {
diff --git a/repos/plywood/src/runtime/ply-runtime/container/Sequence.h b/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
index 2cf8cb3..4bdaeb9 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
@@ -14,7 +14,8 @@ PLY_DLL_ENTRY void destructSequence(Reference<BlockList::Footer>* headRef,
 PLY_DLL_ENTRY void beginWriteInternal(BlockList::Footer** tail, u32 numBytes);
 PLY_DLL_ENTRY void popTail(BlockList::Footer** tail, u32 numBytes,
                            void (*destructViewAs)(StringView));
-PLY_DLL_ENTRY void truncate(BlockList::Footer** tail, const BlockList::WeakRef& to);
+PLY_DLL_ENTRY void truncate(BlockList::Footer** tail, const BlockList::WeakRef& to,
+                            void (*destructViewAs)(StringView));
 PLY_DLL_ENTRY u32 getTotalNumBytes(BlockList::Footer* head);
 PLY_DLL_ENTRY char* read(BlockList::WeakRef* weakRef, u32 itemSize);
 } // namespace details
@@ -267,7 +268,7 @@ public:
         details::popTail(&this->tailBlock, numItems * (u32) sizeof(T), subst::destructViewAs<T>);
     }
     PLY_INLINE void truncate(const WeakSequenceRef<T>& to) {
-        details::truncate(&this->tailBlock, to.impl);
+        details::truncate(&this->tailBlock, to.impl, subst::destructViewAs<T>);
     }
 
     /*!
-- 
2.43.0


From a22c0759091579d966207d6b2ee99e4ec5dff273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:26 +0000
Subject: [PATCH 029/118] fix: a Sequence of items larger than the default
 block size looked empty

---
 repos/plywood/src/runtime/ply-runtime/container/Sequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Sequence.h b/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
index 4bdaeb9..1e2d525 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
@@ -126,7 +126,7 @@ public:
 
         Sequence<String> list;
     */
-    PLY_INLINE Sequence() : headBlock{BlockList::createBlock()}, tailBlock{headBlock} {
+    PLY_INLINE Sequence() : headBlock{BlockList::createBlock(max<u32>(BlockList::DefaultBlockSize, sizeof(T)))}, tailBlock{headBlock} {
     }
 
     /*!
-- 
2.43.0


From a6a4742372b7e10bdebb9c5ff644e8cd6aa63c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:05 +0000
Subject: [PATCH 030/118] fix: iterating a const Pool didn't compile

---
 repos/plywood/src/runtime/ply-runtime/container/Pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Pool.h b/repos/plywood/src/runtime/ply-runtime/container/Pool.h
index e2ab9f0..bba7830 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Pool.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Pool.h
@@ -450,7 +450,7 @@ PoolIterator<const T> Pool<T>::begin() const {
 //! The pool must not be modified during iteration.
 template <typename T>
 PoolIterator<const T> Pool<T>::end() const {
-    return {this, u32(-1), m_size};
+    return {(Pool<const T>*) this, u32(-1), m_size};
 }
 
 //------------------------------------------------------------------------------------
-- 
2.43.0


From 6ace06236304f149723f88dd89c8314ff01f0cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:26 +0000
Subject: [PATCH 031/118] fix: Functor didn't destruct its callable, and leaked
 it when assigned to

---
 .../src/runtime/ply-runtime/container/Functor.h      | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Functor.h b/repos/plywood/src/runtime/ply-runtime/container/Functor.h
index 6ce6846..72761c2 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Functor.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Functor.h
@@ -15,6 +15,7 @@ struct Functor<Return(Args...)> {
 private:
     struct BaseWrapper {
         Return (*thunk)(BaseWrapper* wrapper, Args... args) = nullptr;
+        void (*destroy)(BaseWrapper* wrapper) = nullptr;
     };
 
     template <typename Callable>
@@ -24,9 +25,12 @@ private:
         static PLY_NO_INLINE Return thunk(BaseWrapper* wrapper, Args... args) {
             return static_cast<Wrapper*>(wrapper)->callable(std::forward<Args>(args)...);
         }
+        static PLY_NO_INLINE void destroy(BaseWrapper* wrapper) {
+            delete static_cast<Wrapper*>(wrapper);
+        }
         template <typename I>
         PLY_INLINE Wrapper(I&& callable)
-            : BaseWrapper{&thunk}, callable{std::forward<I>(callable)} {
+            : BaseWrapper{&thunk, &destroy}, callable{std::forward<I>(callable)} {
         }
     };
 
@@ -44,12 +48,16 @@ public:
     }
     PLY_INLINE ~Functor() {
         if (this->wrapper) {
-            delete this->wrapper;
+            this->wrapper->destroy(this->wrapper);
         }
     }
     PLY_INLINE void operator=(Functor&& other) {
+        BaseWrapper* oldWrapper = this->wrapper;
         this->wrapper = other.wrapper;
         other.wrapper = nullptr;
+        if (oldWrapper) {
+            oldWrapper->destroy(oldWrapper);
+        }
     }
     PLY_INLINE bool isValid() const {
         return this->wrapper != nullptr;
-- 
2.43.0


From 12e88f4cfacdf637f0cf0e59b8f410d4b0cd83a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:26 +0000
Subject: [PATCH 032/118] fix: moving a Reference from inside the object it
 replaces read freed memory

---
 repos/plywood/src/runtime/ply-runtime/container/Reference.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Reference.h b/repos/plywood/src/runtime/ply-runtime/container/Reference.h
index 754a89c..e5faf2a 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Reference.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Reference.h
@@ -113,10 +113,11 @@ public:
             oldPtr->decRef();
     }
     PLY_INLINE void operator=(Reference&& ref) {
-        if (this->ptr)
-            this->ptr->decRef();
+        T* oldPtr = this->ptr;
         this->ptr = ref.ptr;
         ref.ptr = nullptr;
+        if (oldPtr)
+            oldPtr->decRef();
     }
     PLY_INLINE explicit operator bool() const {
         return this->ptr != nullptr;
-- 
2.43.0


From bbbb117f0c5929a2f475e81486fa117c63868e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:26 +0000
Subject: [PATCH 033/118] fix: moving an Owned from inside the object it
 replaces read freed memory

---
 repos/plywood/src/runtime/ply-runtime/container/Owned.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Owned.h b/repos/plywood/src/runtime/ply-runtime/container/Owned.h
index da71b30..f1532cc 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Owned.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Owned.h
@@ -65,15 +65,17 @@ public:
     }
     PLY_INLINE void operator=(Owned&& other) {
         PLY_ASSERT(!this->ptr || this->ptr != other.ptr);
-        subst::destroyByMember(this->ptr);
+        T* oldPtr = this->ptr;
         this->ptr = other.release();
+        subst::destroyByMember(oldPtr);
     }
     template <typename Derived,
               typename std::enable_if_t<std::is_base_of<T, Derived>::value, int> = 0>
     PLY_INLINE void operator=(Owned<Derived>&& other) {
         PLY_ASSERT(!this->ptr || this->ptr != other.ptr);
-        subst::destroyByMember(this->ptr);
+        T* oldPtr = this->ptr;
         this->ptr = other.release();
+        subst::destroyByMember(oldPtr);
     }
     PLY_INLINE void operator=(T* ptr) {
         PLY_ASSERT(!this->ptr || this->ptr != ptr);
-- 
2.43.0


From bff65d325a045b2d4c86c4ffa40311aa59778916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:39 +0000
Subject: [PATCH 034/118] fix: assigning an Owned<Derived> to an Owned<Base>
 didn't compile with asserts

---
 repos/plywood/src/runtime/ply-runtime/container/Owned.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Owned.h b/repos/plywood/src/runtime/ply-runtime/container/Owned.h
index f1532cc..4a08d43 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Owned.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Owned.h
@@ -72,7 +72,7 @@ public:
     template <typename Derived,
               typename std::enable_if_t<std::is_base_of<T, Derived>::value, int> = 0>
     PLY_INLINE void operator=(Owned<Derived>&& other) {
-        PLY_ASSERT(!this->ptr || this->ptr != other.ptr);
+        PLY_ASSERT(!this->ptr || this->ptr != other.get());
         T* oldPtr = this->ptr;
         this->ptr = other.release();
         subst::destroyByMember(oldPtr);
-- 
2.43.0


From 2a418157aeb32485d614d938023cbe8a09857e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:53 +0000
Subject: [PATCH 035/118] fix: normalizing a path lost leading ".." components
 and went above the root

---
 .../src/runtime/ply-runtime/filesystem/Path.cpp    | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
index 1a11c52..88f42c8 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
@@ -153,16 +153,22 @@ struct PathCompIterator {
     PLY_NO_INLINE Array<StringView> getNormalizedComps(const PathFormat* pathFmt,
                                                        ArrayView<const StringView> components) {
         Array<StringView> normComps;
+        u32 rootCount = 0; // 1 if the first component is a drive letter and/or initial slash
         u32 upCount = 0;
         this->iterateOver(pathFmt, components, [&](StringView comp) { //
             if (comp == "..") {
-                if (normComps.numItems() > upCount) {
+                if (normComps.numItems() > rootCount + upCount) {
                     normComps.pop();
-                } else {
-                    PLY_ASSERT(normComps.numItems() == upCount);
+                } else if (rootCount == 0 || !pathFmt->isSepByte(normComps[0].back())) {
+                    PLY_ASSERT(normComps.numItems() == rootCount + upCount);
                     normComps.append("..");
-                }
+                    upCount++;
+                } // There's nothing above an absolute root
             } else if (comp != "." && !comp.isEmpty()) {
+                if (normComps.isEmpty() &&
+                    (pathFmt->hasDriveLetter(comp) || pathFmt->isSepByte(comp.back()))) {
+                    rootCount = 1;
+                }
                 normComps.append(comp);
             }
         });
-- 
2.43.0


From df414be077f74c5f56139791cb04427004428163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 036/118] fix: joining onto a drive letter without separator
 made the path absolute

---
 repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
index 88f42c8..0fac393 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
@@ -193,7 +193,9 @@ PLY_NO_INLINE String PathFormat::joinAndNormalize(ArrayView<const StringView> co
                 mout << this->sepByte();
             } else {
                 if (comp.numBytes > 0) {
-                    needSep = !this->isSepByte(comp[comp.numBytes - 1]);
+                    // Don't insert a separator after a lone drive letter. It would become absolute
+                    needSep = !this->isSepByte(comp[comp.numBytes - 1]) &&
+                              this->getDriveLetter(comp) != comp;
                 }
             }
             mout << comp;
-- 
2.43.0


From f50fc885ba21d9324020c67fb2cc6963ecedb225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 037/118] fix: normalizing "./" dropped the trailing separator,
 so that normalizing wasn't idempotent

---
 repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
index 0fac393..de8b619 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
@@ -180,7 +180,8 @@ PLY_NO_INLINE String PathFormat::joinAndNormalize(ArrayView<const StringView> co
     PathCompIterator compIter;
     Array<StringView> normComps = compIter.getNormalizedComps(this, components);
     if (normComps.isEmpty()) {
-        if (components.numItems > 0 && components.back().isEmpty()) {
+        if (components.numItems > 0 &&
+            (components.back().isEmpty() || this->isSepByte(components.back().back()))) {
             return StringView{"."} + this->sepByte();
         } else {
             return ".";
-- 
2.43.0


From 23f27ee2f95a9ba3f27687b0c8d281f16aec26c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:39 +0000
Subject: [PATCH 038/118] fix: assigning a switch to itself lost its contents

---
 repos/plywood/src/runtime/ply-runtime/container/Switch.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Switch.h b/repos/plywood/src/runtime/ply-runtime/container/Switch.h
index cc46da7..c258410 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Switch.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Switch.h
@@ -105,6 +105,8 @@ struct SwitchWrapper {
         idToType[ply::ureg(id)].construct(&storage); \
     } \
     PLY_INLINE void operator=(const ctrName& other) { \
+        if (this == &other) \
+            return; \
         switchTo(other.id); \
         idToType[ply::ureg(id)].copy(&storage, &other.storage); \
     } \
-- 
2.43.0


From 1258b223e68b7989898848a9644e75b0abc9e314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:18 +0000
Subject: [PATCH 039/118] fix: moving a WeakRef from inside the object it
 replaces read freed memory

---
 .../plywood/src/runtime/ply-runtime/container/WeakRef.h  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h b/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
index 6557abc..a61b1c0 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
@@ -126,10 +126,13 @@ public:
     }
 
     void operator=(WeakRef&& ref) {
-        if (m_ptr)
-            m_ptr->decWeakRef();
-        m_ptr = ref.m_ptr;
+        // The old object can contain ref
+        T* oldPtr = m_ptr;
+        T* newPtr = ref.m_ptr;
         ref.m_ptr = nullptr;
+        m_ptr = newPtr;
+        if (oldPtr)
+            oldPtr->decWeakRef();
     }
 };
 
-- 
2.43.0


From a68ab7e5db9580be6e24ca16ad0fdc0965f80ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:38 +0000
Subject: [PATCH 040/118] fix: exists() asserted below a file or a directory
 that can't be searched

---
 .../runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 6d6fd5e..74f4096 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -180,7 +180,8 @@ PLY_NO_INLINE ExistsResult FileSystem_POSIX::exists(FileSystem*, StringView path
     int rc = stat(path.withNullTerminator().bytes, &buf);
     if (rc == 0)
         return (buf.st_mode & S_IFMT) == S_IFDIR ? ExistsResult::Directory : ExistsResult::File;
-    if (errno != ENOENT) {
+    // If something on the way to it is not a directory or can't be searched, we can't see it.
+    if (errno != ENOENT && errno != ENOTDIR && errno != EACCES) {
         PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
     }
     return ExistsResult::NotFound;
-- 
2.43.0


From ae0e2492bc5156cd85a452b2b349bebe771f032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:38 +0000
Subject: [PATCH 041/118] fix: makeDir() asserted where access is denied

---
 .../runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 74f4096..f38f6d5 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -123,6 +123,9 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::makeDir(FileSystem*, StringView path) {
             case EISDIR: {
                 return FileSystem::setLastResult(FSResult::AlreadyExists);
             }
+            case EACCES: {
+                return FileSystem::setLastResult(FSResult::AccessDenied);
+            }
             default: {
                 PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
                 return FileSystem::setLastResult(FSResult::Unknown);
-- 
2.43.0


From 1098e102d5e72dfdfc0625ad307b60f3e0812889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:38 +0000
Subject: [PATCH 042/118] fix: makeDirs() of a path that ends with a separator
 didn't create its parents

---
 .../plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
index 88a373b..9e70982 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
@@ -93,6 +93,9 @@ PLY_NO_INLINE FSResult FileSystem::makeDirs(StringView path) {
         return FileSystem::setLastResult(FSResult::AccessDenied);
     } else {
         auto split = this->pathFormat().split(path);
+        if (split.second.isEmpty() && split.first.numBytes < path.numBytes) {
+            return this->makeDirs(split.first); // Path ends with a separator
+        }
         if (!split.first.isEmpty() && !split.second.isEmpty()) {
             FSResult r = makeDirs(split.first);
             if (r != FSResult::OK && r != FSResult::AlreadyExists)
-- 
2.43.0


From 706472abafca1f521d30d7492efa8130907755de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:38 +0000
Subject: [PATCH 043/118] fix: removeDirTree() asserted on dangling symbolic
 links and where access is denied

---
 .../ply-runtime/filesystem/impl/FileSystem_POSIX.cpp   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index f38f6d5..c2c7ead 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -271,7 +271,11 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::deleteFile(FileSystem*, StringView path
 }
 
 PLY_NO_INLINE FSResult FileSystem_POSIX::removeDirTree(FileSystem* fs, StringView dirPath) {   
-    for (const DirectoryEntry& dirEntry : fs->listDir(dirPath)) {
+    // Don't pass any flags, because those would skip symbolic links that lead nowhere.
+    Directory dir = fs->listDir(dirPath, 0);
+    if (fs->lastResult() != FSResult::OK)
+        return fs->lastResult();
+    for (const DirectoryEntry& dirEntry : dir) {
         String joined = PosixPath::join(dirPath, dirEntry.name);
         if (dirEntry.isDir) {
             FSResult fsResult = fs->removeDirTree(joined);
@@ -281,6 +285,8 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::removeDirTree(FileSystem* fs, StringVie
         } else {
             int rc = unlink(joined.withNullTerminator().bytes);
             if (rc != 0) {
+                if (errno == EACCES)
+                    return FileSystem::setLastResult(FSResult::AccessDenied);
                 PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
                 return FileSystem::setLastResult(FSResult::Unknown);
             }
@@ -288,6 +294,8 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::removeDirTree(FileSystem* fs, StringVie
     }
     int rc = rmdir(dirPath.withNullTerminator().bytes);
     if (rc != 0) {
+        if (errno == EACCES)
+            return FileSystem::setLastResult(FSResult::AccessDenied);
         PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
         return FileSystem::setLastResult(FSResult::Unknown);
     }
-- 
2.43.0


From 4e7395d5c2671d033439b8c5ebb58e0d5a033017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:38 +0000
Subject: [PATCH 044/118] fix: a virtual filesystem gave access to what lies
 outside its root through ".."

---
 .../ply-runtime/filesystem/impl/FileSystem_Virtual.cpp       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
index e1f67f9..99c1487 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
@@ -15,10 +15,11 @@ struct FileSystem_Virtual : FileSystem {
     FileSystem_Virtual();
 
     PLY_NO_INLINE String convertToTargetPath(StringView path) const {
-        // FIXME: should also detect and prohibit ".."
         PathFormat pathFmt = this->targetFS->pathFormat();
         PLY_ASSERT(!pathFmt.isAbsolute(path));
-        return pathFmt.join(this->targetRoot, PosixPath::from(pathFmt, path));
+        // The root is its own parent, so that ".." can't lead out of it.
+        String rooted = PosixPath::join("/", path);
+        return pathFmt.join(this->targetRoot, PosixPath::from(pathFmt, rooted.subStr(1)));
     }
 
     static PLY_NO_INLINE Directory listDir(FileSystem* fs_, StringView path, u32 flags) {
-- 
2.43.0


From 865e2b600f5052ba95e4bdb2f7f09a20a8b02409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:38 +0000
Subject: [PATCH 045/118] fix: makeDirsAndSaveBinaryIfDifferent() could leave a
 truncated file behind and report success

---
 .../ply-runtime/filesystem/FileSystem.cpp     | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
index 9e70982..4739ba3 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
@@ -197,15 +197,25 @@ PLY_NO_INLINE FSResult FileSystem::makeDirsAndSaveBinaryIfDifferent(StringView p
         return result;
     }
 
-    // Save file
-    // FIXME: Use temporary file
-    Owned<OutPipe> outPipe = this->openPipeForWrite(path);
+    // Save to a temporary file in the same folder
+    String tempPath = path + ".tmp";
+    for (u32 i = 1; this->exists(tempPath) != ExistsResult::NotFound; i++) {
+        tempPath = String::format("{}.{}.tmp", path, i);
+    }
+    Owned<OutPipe> outPipe = this->openPipeForWrite(tempPath);
     result = this->lastResult();
     if (result != FSResult::OK) {
         return result;
     }
-    outPipe->write(view);
-    return result;
+    bool written = outPipe->write(view);
+    outPipe.clear();
+    if (!written) {
+        this->deleteFile(tempPath);
+        return FileSystem::setLastResult(FSResult::Unknown);
+    }
+
+    // Replace the original contents
+    return this->moveFile(tempPath, path);
 }
 
 PLY_NO_INLINE FSResult FileSystem::makeDirsAndSaveTextIfDifferent(StringView path,
-- 
2.43.0


From 3b725f630f82820aa782047b083c319561b6bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:18 +0000
Subject: [PATCH 046/118] fix: listDir() and exists() asserted on symbolic
 links that lead into a loop or a file

---
 .../ply-runtime/filesystem/impl/FileSystem_POSIX.cpp      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index c2c7ead..8839447 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -79,7 +79,11 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::DirImpl::nextImpl(ply::Directory::Impl*
                 int rc = stat(joinedPath.withNullTerminator().bytes, &buf);
                 if (rc != 0) {
                     switch (errno) {
-                        case ENOENT: {
+                        case ENOENT:
+                        case ENOTDIR:
+                        case ELOOP:
+                        case EACCES: {
+                            // A symbolic link that doesn't lead anywhere we can see
                             goto skipEntry;
                         }
                         default: {
@@ -184,7 +188,7 @@ PLY_NO_INLINE ExistsResult FileSystem_POSIX::exists(FileSystem*, StringView path
     if (rc == 0)
         return (buf.st_mode & S_IFMT) == S_IFDIR ? ExistsResult::Directory : ExistsResult::File;
     // If something on the way to it is not a directory or can't be searched, we can't see it.
-    if (errno != ENOENT && errno != ENOTDIR && errno != EACCES) {
+    if (errno != ENOENT && errno != ENOTDIR && errno != ELOOP && errno != EACCES) {
         PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
     }
     return ExistsResult::NotFound;
-- 
2.43.0


From b9aedab041dfdd0a5df1ca8bef604ed286fb336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:29 +0000
Subject: [PATCH 047/118] fix: ThreadLocal::setInScope() didn't compile

---
 repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h b/repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h
index c703d74..8de0451 100644
--- a/repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h
+++ b/repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h
@@ -22,9 +22,9 @@ public:
 
     ThreadLocalScope(const ThreadLocalScope&) = delete;
     PLY_INLINE ThreadLocalScope(ThreadLocalScope&& other) {
-        this->var = other->var;
+        this->var = other.var;
         this->oldValue = std::move(other.oldValue);
-        other->var = nullptr;
+        other.var = nullptr;
     }
 
     ~ThreadLocalScope() {
-- 
2.43.0


From 3c0e7094b0470a023bcd8a7f4f21212964bdb115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:29 +0000
Subject: [PATCH 048/118] fix: Thread_POSIX kept a reference to a callable
 passed as an lvalue

---
 .../src/runtime/ply-runtime/thread/impl/Thread_POSIX.h      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.h b/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.h
index 94f1ca5..8fc4b03 100644
--- a/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.h
+++ b/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.h
@@ -38,8 +38,10 @@ public:
     template <typename Callable>
     PLY_INLINE void run(Callable&& callable) {
         PLY_ASSERT(!m_attached);
-        Wrapper<Callable>* wrapper = new Wrapper<Callable>{std::forward<Callable>(callable)};
-        pthread_create(&m_handle, NULL, Wrapper<Callable>::start, wrapper);
+        // The thread gets its own copy of an lvalue, which could be gone before the thread starts.
+        using W = Wrapper<std::decay_t<Callable>>;
+        W* wrapper = new W{std::forward<Callable>(callable)};
+        pthread_create(&m_handle, NULL, W::start, wrapper);
         m_attached = true;
     }
 
-- 
2.43.0


From 85529dbd34f642b3bf39897f4552052eb3d106b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:00 +0000
Subject: [PATCH 049/118] fix: pylon lost the last byte of a word that ends the
 text

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index d4542b6..8fd2455 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -51,12 +51,10 @@ void Parser::error(u32 fileOfs, HybridString&& message) {
 }
 
 void Parser::advanceChar() {
-    if (readOfs + 1 < srcView.numBytes) {
+    if (readOfs < srcView.numBytes) {
         readOfs++;
-        nextUnit = srcView.bytes[readOfs];
-    } else {
-        nextUnit = -1;
     }
+    nextUnit = readOfs < srcView.numBytes ? srcView.bytes[readOfs] : -1;
 }
 
 Parser::Token Parser::readPlainToken(Token::Type type) {
-- 
2.43.0


From ab9240f7603079c8cb695c37e5ae18c647077782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:00 +0000
Subject: [PATCH 050/118] fix: pylon took a byte 0xff for the end of the text

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index 8fd2455..1ce8f2c 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -54,7 +54,7 @@ void Parser::advanceChar() {
     if (readOfs < srcView.numBytes) {
         readOfs++;
     }
-    nextUnit = readOfs < srcView.numBytes ? srcView.bytes[readOfs] : -1;
+    nextUnit = readOfs < srcView.numBytes ? (u8) srcView.bytes[readOfs] : -1;
 }
 
 Parser::Token Parser::readPlainToken(Token::Type type) {
@@ -465,7 +465,7 @@ Owned<Node> Parser::readExpression(Token&& firstToken, const Token* afterToken)
 
 Parser::Result Parser::parse(StringView srcView_) {
     srcView = srcView_;
-    nextUnit = srcView.numBytes > 0 ? srcView[0] : -1;
+    nextUnit = srcView.numBytes > 0 ? (u8) srcView[0] : -1;
 
     this->fileLocMap = FileLocationMap::fromView(srcView_);
 
-- 
2.43.0


From 2d6ccc027d9576edd9b7dc4ea29407ec51df6af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:00 +0000
Subject: [PATCH 051/118] fix: pylon returned a null node for a text with
 errors, which its own parser dereferenced

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index 1ce8f2c..f1e9aea 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -358,17 +358,17 @@ Owned<Node> Parser::readObject(const Token& startToken) {
                                      "separator between properties \"{}\" and \"{}\"",
                                      fmt::EscapedString{prevProperty.text, 20},
                                      fmt::EscapedString{firstToken.text, 20}));
-                return {};
+                return Node::createInvalid();
             }
         } else if (prevProperty.isValid()) {
             error(firstToken.fileOfs,
                   String::format("Unexpected {} after property \"{}\"", toString(firstToken),
                                  fmt::EscapedString{prevProperty.text, 20}));
-            return {};
+            return Node::createInvalid();
         } else {
             error(firstToken.fileOfs,
                   String::format("Expected property, got {}", toString(firstToken)));
-            return {};
+            return Node::createInvalid();
         }
 
         auto propLocationCursor = propLocations.insertOrFind(firstToken.text);
@@ -377,7 +377,7 @@ Owned<Node> Parser::readObject(const Token& startToken) {
                                         ParseError::Scope::duplicate(propLocationCursor->fileOfs)};
             error(firstToken.fileOfs, String::format("Duplicate property \"{}\"",
                                                       fmt::EscapedString{firstToken.text, 20}));
-            return {};
+            return Node::createInvalid();
         }
 
         Token colon = readToken();
@@ -385,7 +385,7 @@ Owned<Node> Parser::readObject(const Token& startToken) {
             error(colon.fileOfs,
                   String::format("Expected \":\" or \"=\" after \"{}\", got {}",
                                  fmt::EscapedString{firstToken.text, 20}, toString(colon)));
-            return {};
+            return Node::createInvalid();
         }
 
         {
@@ -402,7 +402,7 @@ Owned<Node> Parser::readObject(const Token& startToken) {
 
         prevProperty = std::move(firstToken);
     }
-    return {};
+    return Node::createInvalid();
 }
 
 Owned<Node> Parser::readArray(const Token& startToken) {
@@ -449,7 +449,7 @@ Owned<Node> Parser::readExpression(Token&& firstToken, const Token* afterToken)
             return Node::createText(std::move(firstToken.text), firstToken.fileOfs);
 
         case Token::Invalid:
-            return {};
+            return Node::createInvalid();
 
         default: {
             MemOutStream mout;
@@ -458,7 +458,7 @@ Owned<Node> Parser::readExpression(Token&& firstToken, const Token* afterToken)
                 mout << " after " << toString(*afterToken);
             }
             error(firstToken.fileOfs, mout.moveToString());
-            return {};
+            return Node::createInvalid();
         }
     }
 }
@@ -472,13 +472,13 @@ Parser::Result Parser::parse(StringView srcView_) {
     Token rootToken = readToken();
     Owned<Node> root = readExpression(std::move(rootToken));
     if (!root->isValid())
-        return {};
+        return {std::move(root), {}};
 
     Token nextToken = readToken();
     if (nextToken.type != Token::EndOfFile) {
         error(nextToken.fileOfs,
               String::format("Unexpected {} after {}", toString(nextToken), toString(root)));
-        return {};
+        return {Node::createInvalid(), {}};
     }
 
     return {std::move(root), std::move(this->fileLocMap)};
-- 
2.43.0


From a4ddd0c0dbc49c1718bdf5a01e1282c788767551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:00 +0000
Subject: [PATCH 052/118] fix: pylon asserted on an ill-formed string where no
 value is expected

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index f1e9aea..32eae31 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -351,7 +351,9 @@ Owned<Node> Parser::readObject(const Token& startToken) {
         }
     breakOuter:
 
-        if (firstToken.type == Token::Text) {
+        if (firstToken.type == Token::Invalid) {
+            return Node::createInvalid(); // error already reported
+        } else if (firstToken.type == Token::Text) {
             if (prevProperty.isValid() && !gotSeparator) {
                 error(firstToken.fileOfs,
                       String::format("Expected a comma, semicolon or newline "
@@ -381,6 +383,9 @@ Owned<Node> Parser::readObject(const Token& startToken) {
         }
 
         Token colon = readToken();
+        if (colon.type == Token::Invalid) {
+            return Node::createInvalid(); // error already reported
+        }
         if (colon.type != Token::Colon && colon.type != Token::Equals) {
             error(colon.fileOfs,
                   String::format("Expected \":\" or \"=\" after \"{}\", got {}",
@@ -475,6 +480,9 @@ Parser::Result Parser::parse(StringView srcView_) {
         return {std::move(root), {}};
 
     Token nextToken = readToken();
+    if (nextToken.type == Token::Invalid) {
+        return {Node::createInvalid(), {}}; // error already reported
+    }
     if (nextToken.type != Token::EndOfFile) {
         error(nextToken.fileOfs,
               String::format("Unexpected {} after {}", toString(nextToken), toString(root)));
-- 
2.43.0


From e849c55b1bdb9ec183664665cdff1cfc872ec626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:00 +0000
Subject: [PATCH 053/118] fix: a pylon parser used for a second text started at
 the end of the first

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index 32eae31..6d8bca5 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -470,6 +470,8 @@ Owned<Node> Parser::readExpression(Token&& firstToken, const Token* afterToken)
 
 Parser::Result Parser::parse(StringView srcView_) {
     srcView = srcView_;
+    readOfs = 0;
+    anyError_ = false;
     nextUnit = srcView.numBytes > 0 ? (u8) srcView[0] : -1;
 
     this->fileLocMap = FileLocationMap::fromView(srcView_);
-- 
2.43.0


From b56f1c84a476782cad84d5ac9bbf52c2e073b382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:00 +0000
Subject: [PATCH 054/118] fix: copying a pylon node kept views of the
 original's text

---
 repos/plywood/src/pylon/pylon/pylon/Node.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Node.cpp b/repos/plywood/src/pylon/pylon/pylon/Node.cpp
index cebd874..4f081bc 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Node.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Node.cpp
@@ -35,7 +35,7 @@ PLY_NO_INLINE Node::~Node() {
 Owned<Node> Node::copy() const {
     switch ((Type) this->type) {
         case Type::Text: {
-            return createText(this->text_.view(), this->fileOfs);
+            return createText(String{this->text_.view()}, this->fileOfs);
         }
 
         case Type::Array: {
@@ -52,9 +52,9 @@ Owned<Node> Node::copy() const {
             dst->object_.items.resize(this->object_.items.numItems());
             for (u32 i = 0; i < this->object_.items.numItems(); i++) {
                 Object::Item& dstItem = dst->object_.items[i];
-                dstItem.key = this->object_.items[i].key.view();
+                dstItem.key = String{this->object_.items[i].key.view()};
                 dstItem.value = this->object_.items[i].value->copy();
-                *dst->object_.index.insertOrFind(dstItem.key) = i;
+                *dst->object_.index.insertOrFind(dstItem.key, &dst->object_.items) = i;
             }
             return dst;
         }
-- 
2.43.0


From b901ec21fbb92a670942cf7e147ae1fe8b0cc0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:00 +0000
Subject: [PATCH 055/118] fix: control characters in a pylon text were written
 in a form that can't be read

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 20 +++++++++++++++++--
 .../ply-runtime/io/impl/FormatString.cpp      |  2 +-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index 6d8bca5..d4dfc2f 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -64,8 +64,24 @@ Parser::Token Parser::readPlainToken(Token::Type type) {
 }
 
 bool Parser::readEscapedHex(OutStream* outs, u32 escapeFileOfs) {
-    PLY_ASSERT(0); // FIXME
-    return false;
+    u32 value = 0;
+    for (u32 i = 0; i < 2; i++) {
+        u32 digit = 0;
+        if (nextUnit >= '0' && nextUnit <= '9') {
+            digit = nextUnit - '0';
+        } else if (nextUnit >= 'a' && nextUnit <= 'f') {
+            digit = nextUnit - 'a' + 10;
+        } else if (nextUnit >= 'A' && nextUnit <= 'F') {
+            digit = nextUnit - 'A' + 10;
+        } else {
+            error(escapeFileOfs, "Expected two hexadecimal digits after \"\\x\"");
+            return false;
+        }
+        value = value * 16 + digit;
+        advanceChar();
+    }
+    *outs << (char) value;
+    return true;
 }
 
 Parser::Token Parser::readQuotedString() {
diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
index df13ff9..d750971 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
@@ -243,7 +243,7 @@ PLY_NO_INLINE void fmt::TypePrinter<fmt::EscapedString>::print(OutStream* outs,
                     outs->write(srcUnits.left(decoded.numBytes));
                 } else {
                     static const char* digits = "0123456789abcdef";
-                    *outs << '\\' << digits[(decoded.point >> 4) & 0xf]
+                    *outs << "\\x" << digits[(decoded.point >> 4) & 0xf]
                         << digits[decoded.point & 0xf];
                 }
                 break;
-- 
2.43.0


From d444480ad45b87fec72481e458e2c05d09aa359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:23 +0000
Subject: [PATCH 056/118] fix: FileLocationMap had no entry for the end of a
 text of 256 bytes, and wrong ones inside a character

---
 .../src/runtime/ply-runtime/io/text/FileLocationMap.cpp      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
index 7371f75..757c50b 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
@@ -25,8 +25,9 @@ FileLocationMap FileLocationMap::fromView(StringView src) {
 
         DecodeResult decoded = UTF8::decodePoint(src);
         u32 nextOfs = ofs + decoded.numBytes;
-        if (nextOfs > nextChunkOfs) {
-            result.table.append({lineNumber, nextChunkOfs - lineStartOfs, columnNumber, ofs - 256});
+        if (nextOfs >= nextChunkOfs) {
+            result.table.append(
+                {lineNumber, nextChunkOfs - lineStartOfs, columnNumber, nextChunkOfs - ofs});
             nextChunkOfs += 256;
         }
         ofs = nextOfs;
-- 
2.43.0


From f8ae6472d156adefc8ad74933e9082a371e863b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:23 +0000
Subject: [PATCH 057/118] fix: FileLocationMap asserted on an offset inside a
 character

---
 .../src/runtime/ply-runtime/io/text/FileLocationMap.cpp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
index 757c50b..65d29d4 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
@@ -67,6 +67,10 @@ FileLocation FileLocationMap::getFileLocation(u32 offset) const {
 
         // FIXME: Unify with similar code in previous function
         DecodeResult decoded = UTF8::decodePoint(src);
+        if (src.bytes + decoded.numBytes > target) {
+            u32 nb = safeDemote<u32>(target - src.bytes);
+            return {lineNumber, safeDemote<u32>(target - lineStart), columnNumber, nb};
+        }
         src.offsetHead(decoded.numBytes);
 
         if (decoded.point == '\n') {
-- 
2.43.0


From de0eefde36b21577367eb6a09491c40691ac546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:24 +0000
Subject: [PATCH 058/118] fix: pylon never finished reading a word that ends
 the text

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index d4dfc2f..6caa3ef 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -8,7 +8,7 @@
 
 namespace pylon {
 
-bool isAlnumUnit(u32 c) {
+bool isAlnumUnit(s32 c) {
     return (c == '_') || (c == '$') || (c == '-') || (c == '.') || (c >= 'a' && c <= 'z') ||
            (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || (c >= 128);
 }
-- 
2.43.0


From c404d5f53f5e19b68afac208dac5b21a75094c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:24 +0000
Subject: [PATCH 059/118] fix: escaping changed the bytes of an overlong UTF-8
 encoding

---
 .../runtime/ply-runtime/io/impl/FormatString.cpp   | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
index d750971..0537e07 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
@@ -215,7 +215,9 @@ PLY_NO_INLINE void fmt::TypePrinter<fmt::EscapedString>::print(OutStream* outs,
             break;
         }
         DecodeResult decoded = UTF8::decodePoint(srcUnits);
-        switch (decoded.point) {
+        // An overlong encoding doesn't stand for an ASCII character:
+        u32 ascii = decoded.numBytes == 1 ? (u8) srcUnits[0] : 128;
+        switch (ascii) {
             case '"': {
                 *outs << "\\\"";
                 break;
@@ -237,14 +239,14 @@ PLY_NO_INLINE void fmt::TypePrinter<fmt::EscapedString>::print(OutStream* outs,
                 break;
             }
             default: {
-                if (decoded.point >= 32) {
+                if (ascii >= 32) {
                     // This will preserve badly encoded UTF8 characters exactly as they are in
                     // the source string:
                     outs->write(srcUnits.left(decoded.numBytes));
                 } else {
                     static const char* digits = "0123456789abcdef";
-                    *outs << "\\x" << digits[(decoded.point >> 4) & 0xf]
-                        << digits[decoded.point & 0xf];
+                    *outs << "\\x" << digits[ascii >> 4]
+                        << digits[ascii & 0xf];
                 }
                 break;
             }
@@ -263,7 +265,9 @@ PLY_NO_INLINE void fmt::TypePrinter<fmt::XMLEscape>::print(OutStream* outs, cons
             break;
         }
         DecodeResult decoded = UTF8::decodePoint(srcUnits);
-        switch (decoded.point) {
+        // An overlong encoding doesn't stand for an ASCII character:
+        u32 ascii = decoded.numBytes == 1 ? (u8) srcUnits[0] : 128;
+        switch (ascii) {
             case '<': {
                 *outs << "&lt;";
                 break;
-- 
2.43.0


From ca115dafe01712fee5f9b785bd9f4ebc31c31bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:50 +0000
Subject: [PATCH 060/118] fix: skip saved data that isn't an enum when loading
 an enum

---
 repos/plywood/src/reflect/ply-reflect/TypeKey.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
index 3a05667..521b306 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
@@ -656,8 +656,13 @@ TypeKey TypeKey_Enum{
     // read
     [](AnyObject obj, ReadObjectContext* context, FormatDescriptor* formatDesc) {
         NativeEndianReader& in = context->in;
-        FormatDescriptor_Enum* enumFormat = (FormatDescriptor_Enum*) formatDesc;
         TypeDescriptor_Enum* enumType = obj.type->cast<TypeDescriptor_Enum>();
+        if ((FormatKey) formatDesc->formatKey != FormatKey::Enum) {
+            SLOG(Load, "Can't convert to enum \"{}\"", enumType->name);
+            skip(context, formatDesc);
+            return;
+        }
+        FormatDescriptor_Enum* enumFormat = (FormatDescriptor_Enum*) formatDesc;
         u32 serializedValue = 0;
         if (enumFormat->fixedSize == 1) {
             serializedValue = in.read<u8>();
-- 
2.43.0


From 353cc15d4333bde3eda67eaba0c11fe28d9d5e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:50 +0000
Subject: [PATCH 061/118] fix: skip saved data that isn't a StaticPtr when
 loading a StaticPtr

---
 repos/plywood/src/reflect/ply-reflect/StaticPtr.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/repos/plywood/src/reflect/ply-reflect/StaticPtr.cpp b/repos/plywood/src/reflect/ply-reflect/StaticPtr.cpp
index 5b14825..2e25051 100644
--- a/repos/plywood/src/reflect/ply-reflect/StaticPtr.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/StaticPtr.cpp
@@ -80,6 +80,12 @@ TypeKey TypeKey_StaticPtr = {
     // read
     [](AnyObject obj, ReadObjectContext* context, FormatDescriptor* formatDesc) {
         NativeEndianReader& in = context->in;
+        if ((FormatKey) formatDesc->formatKey != FormatKey::Enum ||
+            ((FormatDescriptor_Enum*) formatDesc)->fixedSize != 4) {
+            SLOG(Load, "Can't convert to StaticPtr");
+            skip(context, formatDesc);
+            return;
+        }
         FormatDescriptor_Enum* enumFormat = (FormatDescriptor_Enum*) formatDesc;
         TypeDescriptor_StaticPtr* staticPtrType = obj.type->cast<TypeDescriptor_StaticPtr>();
         const BaseStaticPtr::PossibleValues* pvals = staticPtrType->possibleValues;
-- 
2.43.0


From e9673e7e190cb68e33fa882257e13c21062f0af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:50 +0000
Subject: [PATCH 062/118] fix: load a switch with the format of the state that
 was saved

---
 repos/plywood/src/reflect/ply-reflect/TypeKey.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
index 521b306..3e7b81c 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
@@ -907,7 +907,7 @@ TypeKey TypeKey_Switch{
             newTypedState.construct();
         }
         newTypedState.type->typeKey->read(newTypedState, context,
-                                          switchFormat->states[newID].structFormat);
+                                          switchFormat->states[formatStateID].structFormat);
     },
     // hashDescriptor
     nullptr, // Unimplemented
-- 
2.43.0


From dd8e635a56d9eb14ca9ff0c73ba7e8cbf204f550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:44 +0000
Subject: [PATCH 063/118] fix: skip raw pointers, and anything else when
 loading a raw pointer

---
 repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp | 4 ++++
 repos/plywood/src/reflect/ply-reflect/TypeKey.cpp           | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp b/repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp
index 9b56ef7..99d031c 100644
--- a/repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp
@@ -93,6 +93,10 @@ void skip(ReadObjectContext* context, FormatDescriptor* formatDesc) {
             skip(context, ownedFormat->childFormat);
             break;
         }
+        case FormatKey::RawPtr: {
+            context->in.read<u32>(); // Link index
+            break;
+        }
         case FormatKey::Struct: {
             FormatDescriptor_Struct* structFormat = (FormatDescriptor_Struct*) formatDesc;
             for (FormatDescriptor_Struct::Member& member : structFormat->members) {
diff --git a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
index 3e7b81c..4d72121 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
@@ -744,6 +744,11 @@ TypeKey TypeKey_RawPtr{
     },
     // read
     [](AnyObject obj, ReadObjectContext* context, FormatDescriptor* formatDesc) {
+        if ((FormatKey) formatDesc->formatKey != FormatKey::RawPtr) {
+            SLOG(Load, "Can't convert to raw pointer");
+            skip(context, formatDesc);
+            return;
+        }
         TypeDescriptor_RawPtr* weakPtrType = obj.type->cast<TypeDescriptor_RawPtr>();
         LoadPtrResolver::RawPtr* weakPtr = (LoadPtrResolver::RawPtr*) obj.data;
 
-- 
2.43.0


From 3096b9c72810e7f13e2bbfde30394780b10bd476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:44 +0000
Subject: [PATCH 064/118] fix: endless recursion getting the name of a raw
 pointer type

---
 repos/plywood/src/reflect/ply-reflect/TypeKey.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
index 4d72121..d9fc0bb 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
@@ -720,7 +720,7 @@ TypeKey TypeKey_RawPtr{
     // getName
     [](const TypeDescriptor* typeDesc) -> HybridString { //
         const TypeDescriptor_RawPtr* weakPtrType = typeDesc->cast<const TypeDescriptor_RawPtr>();
-        return String::format("{}*", weakPtrType->getName());
+        return String::format("{}*", weakPtrType->targetType->getName());
     },
 
     // write
-- 
2.43.0


From e316e33efb53cdf0fc3570261b3bafae879805ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:44 +0000
Subject: [PATCH 065/118] fix: remember a synthesized type the first time it is
 seen

---
 .../plywood/src/reflect/ply-reflect/SynthTypeDeduplicator.cpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/repos/plywood/src/reflect/ply-reflect/SynthTypeDeduplicator.cpp b/repos/plywood/src/reflect/ply-reflect/SynthTypeDeduplicator.cpp
index 637d849..099df6d 100644
--- a/repos/plywood/src/reflect/ply-reflect/SynthTypeDeduplicator.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/SynthTypeDeduplicator.cpp
@@ -27,6 +27,9 @@ SynthTypeDeduplicator g_typeDedup;
 
 TypeDescriptorOwner* getUniqueType(SynthTypeDeduplicator* dedup, TypeDescriptorOwner* fromOwner) {
     auto mapCursor = dedup->map.insertOrFind(fromOwner);
+    if (!mapCursor.wasFound()) {
+        *mapCursor = fromOwner;
+    }
     return *mapCursor;
 }
 
-- 
2.43.0


From 2a817415b747673c4d95788dc132514e525b78db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:44 +0000
Subject: [PATCH 066/118] fix: don't destroy the object of an AnySavedObject
 twice

---
 repos/plywood/src/reflect/ply-reflect/AnySavedObject.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/AnySavedObject.h b/repos/plywood/src/reflect/ply-reflect/AnySavedObject.h
index 0f5baba..c0f78e7 100644
--- a/repos/plywood/src/reflect/ply-reflect/AnySavedObject.h
+++ b/repos/plywood/src/reflect/ply-reflect/AnySavedObject.h
@@ -23,7 +23,7 @@ struct AnySavedObject {
     ~AnySavedObject() {
         // Need to destroy the AnyOwnedObject first, since it uses a TypeDescriptor that's owned
         // by the TypeDescriptorOwner.
-        owned.destroy();
+        owned = AnyOwnedObject{};
     }
 
     AnySavedObject& operator=(AnySavedObject&&) = default;
-- 
2.43.0


From 760ddce75eea10a9deeb9347a97b0052c6e29925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:44 +0000
Subject: [PATCH 067/118] fix: write the link table in the order its entries
 are numbered

---
 .../ply-reflect/PersistWriteObject.cpp        | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp b/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
index eff4a45..740976e 100644
--- a/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
@@ -19,7 +19,25 @@ void writeObject(AnyObject obj, WriteObjectContext* writeObjectContext) {
 
 void resolveLinksAndWriteLinkTable(MutableStringView view, OutStream* outs,
                                    SavedPtrResolver* ptrResolver) {
+    // Find out which objects need an entry in the link table.
+    for (const SavedPtrResolver::WeakPointerToResolve& weakInfo : ptrResolver->weakPtrsToResolve) {
+        auto cursor =
+            ptrResolver->addrToSaveInfo.find(weakInfo.obj.data, &ptrResolver->savedOwnedPtrs);
+        if (cursor.wasFound()) {
+            ptrResolver->savedOwnedPtrs[*cursor].linkIndex = 0;
+        }
+    }
+
+    // Number the entries in the order in which the objects were saved, since that's the order in
+    // which the link table is written and loaded.
     u32 linkIndex = 0;
+    for (SavedPtrResolver::SavedOwnedPtr& savedOwnedPtr : ptrResolver->savedOwnedPtrs) {
+        if (savedOwnedPtr.linkIndex >= 0) {
+            savedOwnedPtr.linkIndex = linkIndex;
+            linkIndex++;
+        }
+    }
+
     for (const SavedPtrResolver::WeakPointerToResolve& weakInfo : ptrResolver->weakPtrsToResolve) {
         PLY_ASSERT(weakInfo.fileOffset + 4 <= view.numBytes);
         auto cursor =
@@ -27,10 +45,6 @@ void resolveLinksAndWriteLinkTable(MutableStringView view, OutStream* outs,
         if (cursor.wasFound()) {
             SavedPtrResolver::SavedOwnedPtr& savedOwnedPtr = ptrResolver->savedOwnedPtrs[*cursor];
             PLY_ASSERT(savedOwnedPtr.obj == weakInfo.obj); // Sanity check
-            if (savedOwnedPtr.linkIndex < 0) {
-                savedOwnedPtr.linkIndex = linkIndex;
-                linkIndex++;
-            }
             // Note: This performs a potentially unaligned write
             *(u32*) PLY_PTR_OFFSET(view.bytes, weakInfo.fileOffset) = savedOwnedPtr.linkIndex;
         } else {
-- 
2.43.0


From 52c8da3df47eacd7f8d0b04c7979b1ffd645ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:44 +0000
Subject: [PATCH 068/118] fix: pointers to an object saved at the same place as
 the one that owns it

---
 .../src/reflect/ply-reflect/PersistWriteObject.cpp     | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp b/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
index 740976e..94827fa 100644
--- a/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
@@ -28,6 +28,16 @@ void resolveLinksAndWriteLinkTable(MutableStringView view, OutStream* outs,
         }
     }
 
+    // When an object is the first thing inside another object, both have the same file offset, and
+    // the outer one is loaded first. It must have an entry of its own.
+    for (u32 i = ptrResolver->savedOwnedPtrs.numItems(); i > 1; i--) {
+        if (ptrResolver->savedOwnedPtrs[i - 1].linkIndex >= 0 &&
+            ptrResolver->savedOwnedPtrs[i - 2].fileOffset ==
+                ptrResolver->savedOwnedPtrs[i - 1].fileOffset) {
+            ptrResolver->savedOwnedPtrs[i - 2].linkIndex = 0;
+        }
+    }
+
     // Number the entries in the order in which the objects were saved, since that's the order in
     // which the link table is written and loaded.
     u32 linkIndex = 0;
-- 
2.43.0


From e83911b0b07c8fa00a6064d000be0bb94ae5b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:45 +0000
Subject: [PATCH 069/118] fix: load the schema of a type that contains itself

---
 .../reflect/ply-reflect/PersistReadSchema.cpp | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/PersistReadSchema.cpp b/repos/plywood/src/reflect/ply-reflect/PersistReadSchema.cpp
index cdd9343..50f6e06 100644
--- a/repos/plywood/src/reflect/ply-reflect/PersistReadSchema.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/PersistReadSchema.cpp
@@ -71,22 +71,33 @@ public:
         u32 userFormatIndex =
             m_schema->userFormatDescs
                 .numItems(); // actual formatID is FormatID_StartUserRange + userFormatIndex
+        // A format that can contain itself is put in its slot before its children are read, since
+        // they can refer to it by its formatID.
         m_schema->userFormatDescs.append(nullptr);
         if (formatKey == (u8) FormatKey::FixedArray) {
             u32 numItems = m_in.read<u32>();
-            FormatDescriptor* itemFormat = readFormatDescriptor();
-            newFormat = new FormatDescriptor_FixedArray{numItems, itemFormat};
+            auto* fixedFormat = new FormatDescriptor_FixedArray{numItems, nullptr};
+            m_schema->userFormatDescs[userFormatIndex] = fixedFormat;
+            fixedFormat->itemFormat = readFormatDescriptor();
+            newFormat = fixedFormat;
         } else if (formatKey == (u8) FormatKey::Array) {
-            FormatDescriptor* itemFormat = readFormatDescriptor();
-            newFormat = new FormatDescriptor_Array{itemFormat};
+            auto* arrayFormat = new FormatDescriptor_Array{nullptr};
+            m_schema->userFormatDescs[userFormatIndex] = arrayFormat;
+            arrayFormat->itemFormat = readFormatDescriptor();
+            newFormat = arrayFormat;
         } else if (formatKey == (u8) FormatKey::Owned) {
-            FormatDescriptor* childFormat = readFormatDescriptor();
-            newFormat = new FormatDescriptor_Owned{childFormat};
+            auto* ownedFormat = new FormatDescriptor_Owned{nullptr};
+            m_schema->userFormatDescs[userFormatIndex] = ownedFormat;
+            ownedFormat->childFormat = readFormatDescriptor();
+            newFormat = ownedFormat;
         } else if (formatKey == (u8) FormatKey::RawPtr) {
-            FormatDescriptor* childFormat = readFormatDescriptor();
-            newFormat = new FormatDescriptor_RawPtr{childFormat};
+            auto* rawPtrFormat = new FormatDescriptor_RawPtr{nullptr};
+            m_schema->userFormatDescs[userFormatIndex] = rawPtrFormat;
+            rawPtrFormat->childFormat = readFormatDescriptor();
+            newFormat = rawPtrFormat;
         } else if (formatKey == (u8) FormatKey::Struct) {
             FormatDescriptor_Struct* structFormat = new FormatDescriptor_Struct;
+            m_schema->userFormatDescs[userFormatIndex] = structFormat;
             structFormat->name = Boxed<String>::read(m_in);
             u16 numTemplateParams = m_in.read<u16>();
             u16 numMembers = m_in.read<u16>();
@@ -113,6 +124,7 @@ public:
             newFormat = enumFormat;
         } else if (formatKey == (u8) FormatKey::EnumIndexedArray) {
             FormatDescriptor_EnumIndexedArray* arrFormat = new FormatDescriptor_EnumIndexedArray;
+            m_schema->userFormatDescs[userFormatIndex] = arrFormat;
             arrFormat->itemFormat = readFormatDescriptor();
             FormatDescriptor* enumFormat = readFormatDescriptor();
             PLY_ASSERT(enumFormat->formatKey == (u8) FormatKey::Enum);
@@ -120,6 +132,7 @@ public:
             newFormat = arrFormat;
         } else if (formatKey == (u8) FormatKey::Switch) {
             FormatDescriptor_Switch* switchFormat = new FormatDescriptor_Switch;
+            m_schema->userFormatDescs[userFormatIndex] = switchFormat;
             switchFormat->name = Boxed<String>::read(m_in);
             u16 numStates = m_in.read<u16>();
             switchFormat->states.resize(numStates);
@@ -133,7 +146,9 @@ public:
         } else {
             PLY_ASSERT(0);
         }
-        m_schema->userFormatDescs[userFormatIndex] = newFormat;
+        if (!m_schema->userFormatDescs[userFormatIndex]) {
+            m_schema->userFormatDescs[userFormatIndex] = newFormat;
+        }
         return newFormat;
     }
 
-- 
2.43.0


From f22ed1d7db28738305f4f1cff10202786fac9989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:46 +0000
Subject: [PATCH 070/118] fix: parse a Markdown heading that has no text

---
 repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 327956e..b68cb22 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -771,7 +771,8 @@ static PLY_NO_INLINE void doInlines(Node* node) {
         }
     } else {
         PLY_ASSERT(node->isLeafBlock());
-        if (node->type != Node::CodeBlock) {
+        // An empty heading has no lines
+        if (node->type != Node::CodeBlock && !node->rawLines.isEmpty()) {
             node->addChildren(expandInlineElements(node->rawLines));
             node->rawLines.clear();
         }
-- 
2.43.0


From e65e972fda240a2c6e7672802ebfb8a4df1b4719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:46 +0000
Subject: [PATCH 071/118] fix: parse a Markdown marker with nothing behind it

---
 repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index b68cb22..4e59303 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -202,6 +202,9 @@ struct Parser {
             if (lc.innerIndent() >= 4)
                 break;
 
+            if (isWhite(*lc.vins.curByte))
+                break; // Only the end of the line is left, or it starts with other whitespace
+
             auto savePoint = lc.vins.savePoint();
             u32 savedIndent = lc.indent;
 
@@ -238,7 +241,6 @@ struct Parser {
             };
 
             char c = *lc.vins.curByte;
-            PLY_ASSERT(!isWhite(c));
             if (c == '>') {
                 // Begin a new blockquote
                 this->blockNodes.append(new Node{this->blockNodes.back(), Node::BlockQuote});
-- 
2.43.0


From d6feef5bcc2b65067b5ac02260bb56383ab87286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:46 +0000
Subject: [PATCH 072/118] fix: a Markdown blockquote ends the paragraph before
 it

---
 repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 4e59303..c654fc2 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -243,6 +243,8 @@ struct Parser {
             char c = *lc.vins.curByte;
             if (c == '>') {
                 // Begin a new blockquote
+                this->leafNode = nullptr;
+                this->numBlankLinesInCodeBlock = 0;
                 this->blockNodes.append(new Node{this->blockNodes.back(), Node::BlockQuote});
                 // Consume optional space after '>'
                 lc.vins.advanceByte();
-- 
2.43.0


From 89ef9bf7e9cfbaf420ad41cf45d6e35fa48a27c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:46 +0000
Subject: [PATCH 073/118] fix: continue Markdown list items inside other list
 items and blockquotes

---
 repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index c654fc2..a17621b 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -207,6 +207,7 @@ struct Parser {
 
             auto savePoint = lc.vins.savePoint();
             u32 savedIndent = lc.indent;
+            u32 containerIndent = lc.outerIndent;
 
             // This code block will handle any list markers encountered:
             auto gotListMarker = [&](s32 markerNumber, char punc) {
@@ -236,7 +237,7 @@ struct Parser {
                     listNode->listPunc = punc;
                 }
                 Node* listItem = new Node{listNode, Node::ListItem};
-                listItem->indentOrLevel = lc.outerIndent;
+                listItem->indentOrLevel = lc.outerIndent - containerIndent;
                 this->blockNodes.append(listItem);
             };
 
-- 
2.43.0


From f369cba2be4bd7db8ad0257bf4380a0d45959e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:46 +0000
Subject: [PATCH 074/118] fix: a Markdown list at the start of a list item
 belongs to the item

---
 repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index a17621b..010afc1 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -225,10 +225,6 @@ struct Parser {
                         // Add item to existing list
                         listNode = potentialParent;
                     }
-                } else if (parentCtr->type == Node::ListItem) {
-                    // Begin new list as a sublist of existing list
-                    parentCtr = parentCtr->parent;
-                    PLY_ASSERT(parentCtr->type == Node::List);
                 }
                 if (!listNode) {
                     // Begin new list
-- 
2.43.0


From 6a10ebbbbc8560acf19bd420ae15e9915a956cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:46 +0000
Subject: [PATCH 075/118] fix: convert an empty Markdown list item to HTML

---
 .../plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp b/repos/plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp
index 5e55085..828c401 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp
@@ -39,8 +39,9 @@ void convertToHTML(OutStream* outs, const Node* node, const HTMLOptions& options
         }
         case Node::ListItem: {
             *outs << "<li>";
-            if (!node->parent->isLoose && node->children[0]->type == Node::Paragraph) {
-                // Don't output a newline before the paragraph in a tight list.
+            if (node->children.isEmpty() ||
+                (!node->parent->isLoose && node->children[0]->type == Node::Paragraph)) {
+                // Don't output a newline in an empty item, or before the paragraph in a tight list.
             } else {
                 *outs << "\n";
             }
-- 
2.43.0


From 6ae62eece2b8125fa1378d5fbd9c8bae191b6459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:46 +0000
Subject: [PATCH 076/118] fix: start any Markdown list after a code block

---
 .../src/web/markdown/web-markdown/ParseMarkdown.cpp        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 010afc1..987c9aa 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -208,6 +208,7 @@ struct Parser {
             auto savePoint = lc.vins.savePoint();
             u32 savedIndent = lc.indent;
             u32 containerIndent = lc.outerIndent;
+            bool hasPara = this->leafNode && this->leafNode->type == Node::Paragraph;
 
             // This code block will handle any list markers encountered:
             auto gotListMarker = [&](s32 markerNumber, char punc) {
@@ -256,7 +257,7 @@ struct Parser {
                 u32 indentAfterStar = lc.indent;
                 if (!lc.consumeSpaceOrTab())
                     goto notMarker;
-                if (this->leafNode && lc.trimmedRemainder().isEmpty()) {
+                if (hasPara && lc.trimmedRemainder().isEmpty()) {
                     // If the list item interrupts a paragraph, it must not begin with a blank line.
                     goto notMarker;
                 }
@@ -266,7 +267,7 @@ struct Parser {
                 gotListMarker(-1, c);
             } else if (isDecimalDigit(c)) {
                 u64 num = lc.vins.parse<u64>();
-                if (this->leafNode && num != 1) {
+                if (hasPara && num != 1) {
                     // If list item interrupts a paragraph, the start number must be 1.
                     goto notMarker;
                 }
@@ -286,7 +287,7 @@ struct Parser {
                 u32 indentAfterMarker = lc.indent;
                 if (!lc.consumeSpaceOrTab())
                     goto notMarker;
-                if (this->leafNode && lc.trimmedRemainder().isEmpty()) {
+                if (hasPara && lc.trimmedRemainder().isEmpty()) {
                     // If the list item interrupts a paragraph, it must not begin with a blank line.
                     goto notMarker;
                 }
-- 
2.43.0


From cdc74b379ad8de654258587d7259682f7fb485b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:46 +0000
Subject: [PATCH 077/118] fix: make a Markdown list loose when a code block or
 an empty item continues it

---
 .../markdown/web-markdown/ParseMarkdown.cpp   | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 987c9aa..4300e5c 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -315,6 +315,22 @@ struct Parser {
     PLY_NO_INLINE void parseParagraphText(StringView line, LineConsumer& lc) {
         StringView remainingText = lc.trimmedRemainder();
         bool hasPara = this->leafNode && this->leafNode->type == Node::Paragraph;
+        // First, check if any Lists should be marked loose:
+        if (this->checkListContinuations) {
+            // Yes, we should mark some (possibly zero) lists loose. It's impossible for a
+            // leaf node to exist at this point:
+            PLY_ASSERT(!this->leafNode);
+            for (Node* node : this->blockNodes) {
+                if (node->type == Node::ListItem) {
+                    PLY_ASSERT(node->parent->type == Node::List);
+                    if (node->parent->isLooseIfContinued) {
+                        node->parent->isLoose = true;
+                        node->parent->isLooseIfContinued = false;
+                    }
+                }
+            }
+            this->checkListContinuations = false;
+        }
         if (!hasPara && lc.innerIndent() >= 4) {
             // Potentially begin or append to code Node
             if (remainingText && !this->leafNode) {
@@ -334,23 +350,6 @@ struct Parser {
         } else {
             if (remainingText) {
                 // We're going to create or extend a leaf node.
-                // First, check if any Lists should be marked loose:
-                if (this->checkListContinuations) {
-                    // Yes, we should mark some (possibly zero) lists loose. It's impossible for a
-                    // leaf node to exist at this point:
-                    PLY_ASSERT(!this->leafNode);
-                    for (Node* node : this->blockNodes) {
-                        if (node->type == Node::ListItem) {
-                            PLY_ASSERT(node->parent->type == Node::List);
-                            if (node->parent->isLooseIfContinued) {
-                                node->parent->isLoose = true;
-                                node->parent->isLooseIfContinued = false;
-                            }
-                        }
-                    }
-                    this->checkListContinuations = false;
-                }
-
                 if (*lc.vins.curByte == '#' && lc.innerIndent() <= 3) {
                     // Attempt to parse a heading
                     auto savePoint = lc.vins.savePoint();
-- 
2.43.0


From 2c5ac92b8670a44ccb72fa8ab9250244ab6c1818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:46 +0000
Subject: [PATCH 078/118] fix: forget the blank lines of a Markdown code block
 that a heading ends

---
 repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 4300e5c..679c99d 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -365,6 +365,7 @@ struct Parser {
                             headingNode->rawLines.append(remainingText);
                         }
                         this->leafNode = nullptr;
+                        this->numBlankLinesInCodeBlock = 0;
                         return;
                     }
                     lc.vins.restore(savePoint);
-- 
2.43.0


From a1b0b1c970bf04a08e4c03637d146f8cc4a7a0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:46 +0000
Subject: [PATCH 079/118] fix: find Markdown underscore emphasis around star
 emphasis

---
 repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 679c99d..f164fab 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -639,7 +639,7 @@ Array<Owned<Node>> processEmphasis(Array<Delimiter>& delimiters, u32 bottomPos)
                     delimiters.insert(j) = std::move(elem);
                     pos = j;
                     starOpener = min(starOpener, pos + 1);
-                    underscoreOpener = min(starOpener, pos + 1);
+                    underscoreOpener = min(underscoreOpener, pos + 1);
                     return;
                 }
             }
-- 
2.43.0


From 3ef18aa8df4312dd7e7427529f4e586c287e102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:46 +0000
Subject: [PATCH 080/118] fix: consume the character after a backslash in a
 Markdown link destination

---
 repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index f164fab..69c3015 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -553,6 +553,7 @@ Tuple<bool, String> parseLinkDestination(InlineConsumer& ic) {
                 mout << '\\';
             }
             mout << c;
+            ic.i++;
         } else if (c == '(') {
             ic.i++;
             mout << c;
-- 
2.43.0


From 80881b46e64e4640da82dd1444f4744eaaa6eb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:03 +0000
Subject: [PATCH 081/118] fix: let a Markdown delimiter that closes nothing
 open emphasis

---
 .../src/web/markdown/web-markdown/ParseMarkdown.cpp        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 69c3015..dc6f655 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -515,6 +515,11 @@ struct Delimiter {
         result.rightFlanking =
             !precededByWhite &&
             (!precededByPunc || (precededByPunc && (followedByWhite || followedByPunc)));
+        if (type == Underscores && result.leftFlanking && result.rightFlanking) {
+            // Underscores inside a word don't delimit anything
+            result.leftFlanking = precededByPunc;
+            result.rightFlanking = followedByPunc;
+        }
         return result;
     }
 };
@@ -645,7 +650,7 @@ Array<Owned<Node>> processEmphasis(Array<Delimiter>& delimiters, u32 bottomPos)
                 }
             }
             // None found
-            openerPos = pos + 1;
+            openerPos = pos; // This delimiter itself may still be an opener
         };
         if (delimiters[pos].type == Delimiter::Stars && delimiters[pos].rightFlanking) {
             handleCloser(Delimiter::Stars, starOpener);
-- 
2.43.0


From 85beeee62d6afb29eb4e878fbab36b8f42b135e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:40 +0000
Subject: [PATCH 082/118] fix: make a Markdown list loose when a blank line
 follows a code block in it

---
 .../markdown/web-markdown/ParseMarkdown.cpp   | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index dc6f655..741dbad 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -166,16 +166,15 @@ struct Parser {
                 } else {
                     this->numBlankLinesInCodeBlock++;
                 }
-            } else {
-                // There's no leaf node and the remainder of the line is blank.
-                // Walk the stack and set the "isLooseIfContinued" flag on all Lists.
-                for (Node* node : this->blockNodes) {
-                    if (node->type == Node::ListItem) {
-                        PLY_ASSERT(node->parent->type == Node::List);
-                        if (!node->parent->isLoose) {
-                            node->parent->isLooseIfContinued = true;
-                            this->checkListContinuations = true;
-                        }
+            }
+            // The remainder of the line is blank.
+            // Walk the stack and set the "isLooseIfContinued" flag on all Lists.
+            for (Node* node : this->blockNodes) {
+                if (node->type == Node::ListItem) {
+                    PLY_ASSERT(node->parent->type == Node::List);
+                    if (!node->parent->isLoose) {
+                        node->parent->isLooseIfContinued = true;
+                        this->checkListContinuations = true;
                     }
                 }
             }
@@ -317,14 +316,15 @@ struct Parser {
         bool hasPara = this->leafNode && this->leafNode->type == Node::Paragraph;
         // First, check if any Lists should be marked loose:
         if (this->checkListContinuations) {
-            // Yes, we should mark some (possibly zero) lists loose. It's impossible for a
-            // leaf node to exist at this point:
-            PLY_ASSERT(!this->leafNode);
+            // Yes, we should mark some (possibly zero) lists loose, unless the blank lines turn out
+            // to be inside a code block, the only leaf node that can exist at this point:
+            PLY_ASSERT(!hasPara);
+            bool isInsideCodeBlock = this->leafNode && lc.innerIndent() >= 4;
             for (Node* node : this->blockNodes) {
                 if (node->type == Node::ListItem) {
                     PLY_ASSERT(node->parent->type == Node::List);
                     if (node->parent->isLooseIfContinued) {
-                        node->parent->isLoose = true;
+                        node->parent->isLoose = !isInsideCodeBlock;
                         node->parent->isLooseIfContinued = false;
                     }
                 }
-- 
2.43.0


From d17343191276ae714d18996a0122324397e540fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:44 +0000
Subject: [PATCH 083/118] fix: copy Crowbar values that are assigned, passed or
 returned by name

---
 .../src/crowbar/ply-crowbar/Interpreter.cpp   | 52 ++++++++++++-------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp b/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
index af797cc..b1e64cb 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
@@ -4,6 +4,7 @@
 ------------------------------------*/
 #include <ply-crowbar/Core.h>
 #include <ply-crowbar/Interpreter.h>
+#include <ply-reflect/builtin/TypeDescriptor_Function.h>
 
 namespace ply {
 namespace crowbar {
@@ -48,9 +49,24 @@ MethodResult evalString(Interpreter::StackFrame* frame,
     return MethodResult::OK;
 }
 
-PLY_INLINE bool isReturnValueOnTopOfStack(Interpreter* interp) {
-    return !interp->localVariableStorage.items.isEmpty() &&
-           (interp->localVariableStorage.items.tail() == interp->returnValue);
+// Functions are never modified and outlive the script, so there's no need to copy them.
+PLY_INLINE bool isFunction(const AnyObject& obj) {
+    return obj.type && ((obj.type->typeKey == &TypeKey_Function) ||
+                        obj.is<Statement::FunctionDefinition>());
+}
+
+// Unless the return value is a temporary object that was created since the given boundary, it
+// belongs to somebody else: It's a variable, a literal or an object provided by the host. In that
+// case, replace it with a copy at the top of the stack.
+void makeReturnValueTemporary(Interpreter* interp, const ObjectStack::Boundary& boundary) {
+    if (!interp->returnValue.data || isFunction(interp->returnValue))
+        return;
+    if ((boundary.item.normalized() != interp->localVariableStorage.items.end()) &&
+        (interp->localVariableStorage.items.tail() == interp->returnValue))
+        return;
+    AnyObject* obj = interp->localVariableStorage.appendObject(interp->returnValue.type);
+    obj->copy(interp->returnValue);
+    interp->returnValue = *obj;
 }
 
 MethodResult evalPropertyLookup(Interpreter::StackFrame* frame,
@@ -118,18 +134,13 @@ MethodResult evalCall(Interpreter::StackFrame* frame, const Expression::Call* ca
     // Evaluate arguments.
     Array<AnyObject> args;
     for (const Expression* argExpr : call->args) {
+        ObjectStack::Boundary argBoundary = interp->localVariableStorage.end();
         result = eval(frame, argExpr);
         if (result != MethodResult::OK)
             return result;
 
-        AnyObject* arg;
-        if (!isReturnValueOnTopOfStack(interp)) {
-            arg = interp->localVariableStorage.appendObject(interp->returnValue.type);
-            arg->move(interp->returnValue);
-        } else {
-            arg = &interp->localVariableStorage.items.tail();
-        }
-        args.append(*arg);
+        makeReturnValueTemporary(interp, argBoundary);
+        args.append(interp->returnValue);
         interp->returnValue = {};
     }
 
@@ -289,6 +300,7 @@ MethodResult execAssign(Interpreter::StackFrame* frame, const Statement::Assignm
     MethodResult result = eval(frame, assign->right);
     if (result != MethodResult::OK)
         return result;
+    makeReturnValueTemporary(interp, localVariableStorageBoundary);
 
     // Perform assignment.
     if (assign->left->id == Expression::ID::NameLookup) {
@@ -297,12 +309,16 @@ MethodResult execAssign(Interpreter::StackFrame* frame, const Statement::Assignm
         auto cursor = frame->localVariableTable.insertOrFind(name);
         if (cursor.wasFound()) {
             // Move result to existing local variable.
-            cursor->obj.move(interp->returnValue);
+            if (isFunction(interp->returnValue)) {
+                cursor->obj = interp->returnValue;
+            } else {
+                cursor->obj.move(interp->returnValue);
+            }
             // Delete temporary objects.
             interp->localVariableStorage.deleteRange(localVariableStorageBoundary,
                                                      interp->localVariableStorage.items.end());
         } else {
-            if (isReturnValueOnTopOfStack(interp)) {
+            if (!isFunction(interp->returnValue)) {
                 WeakSequenceRef<AnyObject> deleteTo = interp->localVariableStorage.items.end();
                 --deleteTo;
                 // Delete temporary objects except for the return value.
@@ -313,11 +329,7 @@ MethodResult execAssign(Interpreter::StackFrame* frame, const Statement::Assignm
                 // Delete temporary objects.
                 interp->localVariableStorage.deleteRange(localVariableStorageBoundary,
                                                          interp->localVariableStorage.items.end());
-                // Allocate storage for new local variable.
-                AnyObject* dest =
-                    interp->localVariableStorage.appendObject(interp->returnValue.type);
-                dest->move(interp->returnValue);
-                cursor->obj = *dest;
+                cursor->obj = interp->returnValue;
             }
         }
         interp->returnValue = {};
@@ -372,9 +384,13 @@ MethodResult execBlock(Interpreter::StackFrame* frame, const StatementBlock* blo
                 break;
             }
             case Statement::ID::Return_: {
+                ObjectStack::Boundary localVariableStorageBoundary =
+                    interp->localVariableStorage.end();
                 MethodResult result = eval(frame, statement->return_()->expr);
                 if (result != MethodResult::OK)
                     return result;
+                // Local variables are about to be destroyed.
+                makeReturnValueTemporary(interp, localVariableStorageBoundary);
                 return MethodResult::Return;
             }
             case Statement::ID::CustomBlock: {
-- 
2.43.0


From 2f39cbde5247ed63e5ec8b8bd09b4f5cc79cb9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:44 +0000
Subject: [PATCH 084/118] fix: report a Crowbar expression that has no value

---
 .../src/crowbar/ply-crowbar/Interpreter.cpp   | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp b/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
index b1e64cb..7430064 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
@@ -69,12 +69,22 @@ void makeReturnValueTemporary(Interpreter* interp, const ObjectStack::Boundary&
     interp->returnValue = *obj;
 }
 
+// Evaluate an expression whose value is going to be used.
+MethodResult evalValue(Interpreter::StackFrame* frame, const Expression* expr) {
+    MethodResult result = eval(frame, expr);
+    if ((result == MethodResult::OK) && !frame->interp->returnValue.data) {
+        frame->interp->error(frame->interp, "expression has no value");
+        return MethodResult::Error;
+    }
+    return result;
+}
+
 MethodResult evalPropertyLookup(Interpreter::StackFrame* frame,
                                 const Expression::PropertyLookup* propLookup) {
     Interpreter* interp = frame->interp;
 
     // Evaluate left side.
-    MethodResult result = eval(frame, propLookup->obj);
+    MethodResult result = evalValue(frame, propLookup->obj);
     if (result != MethodResult::OK)
         return result;
     AnyObject obj = interp->returnValue;
@@ -90,14 +100,14 @@ MethodResult evalBinaryOp(Interpreter::StackFrame* frame, const Expression::Bina
     Interpreter* interp = frame->interp;
 
     // Evaluate left side.
-    MethodResult result = eval(frame, binaryOp->left);
+    MethodResult result = evalValue(frame, binaryOp->left);
     if (result != MethodResult::OK)
         return result;
     AnyObject left = interp->returnValue;
     interp->returnValue = {};
 
     // Evaluate right side.
-    result = eval(frame, binaryOp->right);
+    result = evalValue(frame, binaryOp->right);
     if (result != MethodResult::OK)
         return result;
     AnyObject right = interp->returnValue;
@@ -111,7 +121,7 @@ MethodResult evalUnaryOp(Interpreter::StackFrame* frame, const Expression::Unary
     Interpreter* interp = frame->interp;
 
     // Evaluate subexpression.
-    MethodResult result = eval(frame, unaryOp->expr);
+    MethodResult result = evalValue(frame, unaryOp->expr);
     if (result != MethodResult::OK)
         return result;
     AnyObject obj = interp->returnValue;
@@ -125,7 +135,7 @@ MethodResult evalCall(Interpreter::StackFrame* frame, const Expression::Call* ca
     Interpreter* interp = frame->interp;
 
     // Evaluate callable.
-    MethodResult result = eval(frame, call->callable);
+    MethodResult result = evalValue(frame, call->callable);
     if (result != MethodResult::OK)
         return result;
     AnyObject callee = interp->returnValue;
@@ -135,7 +145,7 @@ MethodResult evalCall(Interpreter::StackFrame* frame, const Expression::Call* ca
     Array<AnyObject> args;
     for (const Expression* argExpr : call->args) {
         ObjectStack::Boundary argBoundary = interp->localVariableStorage.end();
-        result = eval(frame, argExpr);
+        result = evalValue(frame, argExpr);
         if (result != MethodResult::OK)
             return result;
 
@@ -239,7 +249,7 @@ MethodResult execIf(Interpreter::StackFrame* frame, const Statement::If_* if_) {
 
     // Evaluate condition.
     ObjectStack::Boundary localVariableStorageBoundary = interp->localVariableStorage.end();
-    MethodResult result = eval(frame, if_->condition);
+    MethodResult result = evalValue(frame, if_->condition);
     if (result != MethodResult::OK)
         return result;
     // FIXME: Do implicit conversion to bool
@@ -263,7 +273,7 @@ MethodResult execWhile(Interpreter::StackFrame* frame, const Statement::While_*
     for (;;) {
         // Evaluate condition.
         ObjectStack::Boundary localVariableStorageBoundary = interp->localVariableStorage.end();
-        MethodResult result = eval(frame, while_->condition);
+        MethodResult result = evalValue(frame, while_->condition);
         if (result != MethodResult::OK)
             return result;
         // FIXME: Do implicit conversion to bool
@@ -297,7 +307,7 @@ MethodResult execAssign(Interpreter::StackFrame* frame, const Statement::Assignm
     }
 
     // Evaluate right side.
-    MethodResult result = eval(frame, assign->right);
+    MethodResult result = evalValue(frame, assign->right);
     if (result != MethodResult::OK)
         return result;
     makeReturnValueTemporary(interp, localVariableStorageBoundary);
-- 
2.43.0


From 5d90610ad69adf4b2c16f8043139467684653262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:44 +0000
Subject: [PATCH 085/118] fix: report an object that can't be embedded in a
 Crowbar string

---
 .../plywood/src/crowbar/ply-crowbar/Interpreter.cpp  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp b/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
index 7430064..1a58198 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
@@ -11,10 +11,11 @@ namespace crowbar {
 
 MethodResult eval(Interpreter::StackFrame* frame, const Expression* expr);
 MethodResult execBlock(Interpreter::StackFrame* frame, const StatementBlock* block);
+MethodResult evalValue(Interpreter::StackFrame* frame, const Expression* expr);
 MethodResult execFunction(Interpreter::StackFrame* frame, const StatementBlock* block);
 
 // FIXME: Generalize this:
-void write(OutStream& outs, const AnyObject& arg) {
+bool write(OutStream& outs, const AnyObject& arg) {
     if (arg.is<u32>()) {
         outs << *arg.cast<u32>();
     } else if (arg.is<bool>()) {
@@ -22,8 +23,9 @@ void write(OutStream& outs, const AnyObject& arg) {
     } else if (arg.is<String>()) {
         outs << *arg.cast<String>();
     } else {
-        PLY_ASSERT(0);
+        return false;
     }
+    return true;
 }
 
 MethodResult evalString(Interpreter::StackFrame* frame,
@@ -34,11 +36,13 @@ MethodResult evalString(Interpreter::StackFrame* frame,
     for (const Expression::InterpolatedString::Piece& piece : stringExp->pieces) {
         mout << piece.literal;
         if (piece.embed) {
-            MethodResult result = eval(frame, piece.embed);
+            MethodResult result = evalValue(frame, piece.embed);
             if (result != MethodResult::OK)
                 return result;
-            write(mout, interp->returnValue);
+            AnyObject obj = interp->returnValue;
             interp->returnValue = {};
+            if (!write(mout, obj))
+                return obj.type->methods.print(interp, obj, {});
         }
     }
 
-- 
2.43.0


From c9b965204a0510873561914c76b31ace3e9fedbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:44 +0000
Subject: [PATCH 086/118] fix: report a Crowbar condition that isn't a bool

---
 repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp b/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
index 1a58198..26a51bc 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
@@ -248,6 +248,13 @@ MethodResult eval(Interpreter::StackFrame* frame, const Expression* expr) {
     }
 }
 
+MethodResult conditionIsNotBool(Interpreter* interp) {
+    HybridString typeName = interp->returnValue.type->getName();
+    interp->returnValue = {};
+    interp->error(interp, String::format("condition must be 'bool', not '{}'", typeName));
+    return MethodResult::Error;
+}
+
 MethodResult execIf(Interpreter::StackFrame* frame, const Statement::If_* if_) {
     Interpreter* interp = frame->interp;
 
@@ -257,6 +264,8 @@ MethodResult execIf(Interpreter::StackFrame* frame, const Statement::If_* if_) {
     if (result != MethodResult::OK)
         return result;
     // FIXME: Do implicit conversion to bool
+    if (!interp->returnValue.is<bool>())
+        return conditionIsNotBool(interp);
     bool wasTrue = (*interp->returnValue.cast<bool>() != 0);
     interp->returnValue = {};
     // Delete temporary objects.
@@ -281,6 +290,8 @@ MethodResult execWhile(Interpreter::StackFrame* frame, const Statement::While_*
         if (result != MethodResult::OK)
             return result;
         // FIXME: Do implicit conversion to bool
+        if (!interp->returnValue.is<bool>())
+            return conditionIsNotBool(interp);
         bool wasTrue = (*interp->returnValue.cast<bool>() != 0);
         interp->returnValue = {};
         // Delete temporary objects.
-- 
2.43.0


From 2b811142c4f17dc294be4d26a54ad42fc4d562aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:44 +0000
Subject: [PATCH 087/118] fix: report Crowbar assignments to the wrong type or
 to something that isn't a variable

---
 .../src/crowbar/ply-crowbar/Interpreter.cpp    | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp b/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
index 26a51bc..55ea224 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
@@ -313,7 +313,15 @@ MethodResult execAssign(Interpreter::StackFrame* frame, const Statement::Assignm
 
     // Evaluate left side.
     AnyObject left;
-    if (assign->left->id != Expression::ID::NameLookup) {
+    if (assign->left->id == Expression::ID::NameLookup) {
+        auto cursor = frame->localVariableTable.find(assign->left->nameLookup()->name);
+        if (cursor.wasFound()) {
+            left = cursor->obj;
+        }
+    } else if (assign->left->id != Expression::ID::PropertyLookup) {
+        interp->error(interp, "can only assign to a variable or a property");
+        return MethodResult::Error;
+    } else {
         MethodResult result = eval(frame, assign->left);
         if (result != MethodResult::OK)
             return result;
@@ -326,10 +334,16 @@ MethodResult execAssign(Interpreter::StackFrame* frame, const Statement::Assignm
     if (result != MethodResult::OK)
         return result;
     makeReturnValueTemporary(interp, localVariableStorageBoundary);
+    if (left.data && !left.type->isEquivalentTo(interp->returnValue.type)) {
+        HybridString typeName = interp->returnValue.type->getName();
+        interp->returnValue = {};
+        interp->error(interp, String::format("cannot assign '{}' to '{}'", typeName,
+                                             left.type->getName()));
+        return MethodResult::Error;
+    }
 
     // Perform assignment.
     if (assign->left->id == Expression::ID::NameLookup) {
-        PLY_ASSERT(!left.data);
         Label name = assign->left->nameLookup()->name;
         auto cursor = frame->localVariableTable.insertOrFind(name);
         if (cursor.wasFound()) {
-- 
2.43.0


From 50a46107d928d27e05408dfdcfdde804e60bbcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:44 +0000
Subject: [PATCH 088/118] fix: report Crowbar calls with the wrong number of
 arguments

---
 .../src/crowbar/ply-crowbar/Interpreter.cpp        |  8 +++++++-
 .../ply-reflect/builtin/TypeDescriptor_Function.h  | 14 +++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp b/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
index 55ea224..3e61446 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
@@ -163,7 +163,13 @@ MethodResult evalCall(Interpreter::StackFrame* frame, const Expression::Call* ca
         // It's a Crowbar function.
         // FIXME: Move this to MethodTable.
         const auto* functionDef = callee.cast<Statement::FunctionDefinition>();
-        PLY_ASSERT(args.numItems() == functionDef->parameterNames.numItems());
+        if (args.numItems() != functionDef->parameterNames.numItems()) {
+            interp->error(interp,
+                          String::format("'{}' expects {} arguments, not {}",
+                                         LabelMap::instance.view(functionDef->name),
+                                         functionDef->parameterNames.numItems(), args.numItems()));
+            return MethodResult::Error;
+        }
 
         // Set up a new stack frame.
         Interpreter::StackFrame newFrame;
diff --git a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Function.h b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Function.h
index 707b822..7c891cf 100644
--- a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Function.h
+++ b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Function.h
@@ -30,6 +30,12 @@ namespace details {
 
 #if PLY_WITH_METHOD_TABLES
 
+PLY_INLINE MethodResult wrongArguments(BaseInterpreter* interp) {
+    interp->returnValue = {};
+    interp->error(interp, "wrong arguments for built-in function");
+    return MethodResult::Error;
+}
+
 template <typename... Params>
 struct FunctionCallThunk {};
 template <typename Param0>
@@ -38,8 +44,9 @@ struct FunctionCallThunk<Param0> {
                                            ArrayView<const AnyObject> args) {
         using FunctionType = MethodResult(BaseInterpreter*, Param0);
         PLY_ASSERT(callee.type->isEquivalentTo(getTypeDescriptor<FunctionType>()));
-        PLY_ASSERT(args.numItems == 1);
-        PLY_ASSERT(args[0].type->isEquivalentTo(getTypeDescriptor<Param0>()));
+        if ((args.numItems != 1) ||
+            !args[0].type->isEquivalentTo(getTypeDescriptor<Param0>()))
+            return wrongArguments(interp);
         return reinterpret_cast<FunctionType*>(callee.data)(interp, *(Param0*) args[0].data);
     }
 };
@@ -49,7 +56,8 @@ struct FunctionCallThunk<const AnyObject&> {
                                            ArrayView<const AnyObject> args) {
         using FunctionType = MethodResult(BaseInterpreter*, const AnyObject&);
         PLY_ASSERT(callee.type->isEquivalentTo(getTypeDescriptor<FunctionType>()));
-        PLY_ASSERT(args.numItems == 1);
+        if (args.numItems != 1)
+            return wrongArguments(interp);
         return reinterpret_cast<FunctionType*>(callee.data)(interp, args[0]);
     }
 };
-- 
2.43.0


From ad2163e1834ce67233670a9ba719c02c19d07115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:44 +0000
Subject: [PATCH 089/118] fix: report binary operators that don't support the
 type of their right operand

---
 .../ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp  |  4 ++++
 .../ply-reflect/builtin/TypeDescriptor_Bool.cpp        |  6 ++++++
 .../ply-reflect/builtin/TypeDescriptor_String.cpp      |  4 ++++
 .../src/reflect/ply-reflect/methods/MethodTable.cpp    | 10 ++++++++++
 .../src/reflect/ply-reflect/methods/MethodTable.h      |  2 ++
 5 files changed, 26 insertions(+)

diff --git a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp
index 6e95f4a..b3e9de6 100644
--- a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp
@@ -21,6 +21,10 @@ struct ArithmeticMethodTable {
         MethodTable methods;
         methods.binaryOp = [](BaseInterpreter* interp, MethodTable::BinaryOp op,
                               const AnyObject& first, const AnyObject& second) -> MethodResult {
+            if (op == MethodTable::BinaryOp::LogicalAnd || op == MethodTable::BinaryOp::LogicalOr)
+                return MethodTable::unsupportedBinaryOp(interp, op, first, second);
+            if (!second.is<T>())
+                return MethodTable::unsupportedOperands(interp, op, first, second);
             switch (op) {
                 case MethodTable::BinaryOp::Multiply: {
                     interp->returnValue =
diff --git a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Bool.cpp b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Bool.cpp
index ae36355..a05f945 100644
--- a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Bool.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Bool.cpp
@@ -21,6 +21,8 @@ struct BoolMethodTable {
                               const AnyObject& first, const AnyObject& second) -> MethodResult {
             switch (op) {
                 case MethodTable::BinaryOp::DoubleEqual: {
+                    if (!second.is<bool>())
+                        return MethodTable::unsupportedOperands(interp, op, first, second);
                     interp->returnValue =
                         *interp->localVariableStorage.appendObject(getTypeDescriptor<bool>());
                     *interp->returnValue.cast<bool>() =
@@ -28,6 +30,8 @@ struct BoolMethodTable {
                     return MethodResult::OK;
                 }
                 case MethodTable::BinaryOp::LogicalAnd: {
+                    if (!second.is<bool>())
+                        return MethodTable::unsupportedOperands(interp, op, first, second);
                     interp->returnValue =
                         *interp->localVariableStorage.appendObject(getTypeDescriptor<bool>());
                     *interp->returnValue.cast<bool>() =
@@ -35,6 +39,8 @@ struct BoolMethodTable {
                     return MethodResult::OK;
                 }
                 case MethodTable::BinaryOp::LogicalOr: {
+                    if (!second.is<bool>())
+                        return MethodTable::unsupportedOperands(interp, op, first, second);
                     interp->returnValue =
                         *interp->localVariableStorage.appendObject(getTypeDescriptor<bool>());
                     *interp->returnValue.cast<bool>() =
diff --git a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_String.cpp b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_String.cpp
index 92be3a2..d7407e8 100644
--- a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_String.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_String.cpp
@@ -22,6 +22,8 @@ struct StringMethodTable {
                               const AnyObject& first, const AnyObject& second) {
             switch (op) {
                 case MethodTable::BinaryOp::Add: {
+                    if (!second.is<String>())
+                        return MethodTable::unsupportedOperands(interp, op, first, second);
                     interp->returnValue =
                         *interp->localVariableStorage.appendObject(getTypeDescriptor<String>());
                     *interp->returnValue.cast<String>() =
@@ -29,6 +31,8 @@ struct StringMethodTable {
                     return MethodResult::OK;
                 }
                 case MethodTable::BinaryOp::Multiply: {
+                    if (!second.is<u32>())
+                        return MethodTable::unsupportedOperands(interp, op, first, second);
                     interp->returnValue =
                         *interp->localVariableStorage.appendObject(getTypeDescriptor<String>());
                     *interp->returnValue.cast<String>() =
diff --git a/repos/plywood/src/reflect/ply-reflect/methods/MethodTable.cpp b/repos/plywood/src/reflect/ply-reflect/methods/MethodTable.cpp
index 3fba075..8d21a30 100644
--- a/repos/plywood/src/reflect/ply-reflect/methods/MethodTable.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/methods/MethodTable.cpp
@@ -53,6 +53,16 @@ MethodResult MethodTable::unsupportedBinaryOp(BaseInterpreter* interp, MethodTab
     return MethodResult::Error;
 }
 
+MethodResult MethodTable::unsupportedOperands(BaseInterpreter* interp, MethodTable::BinaryOp op,
+                                              const AnyObject& first, const AnyObject& second) {
+    interp->returnValue = {};
+    interp->error(interp, String::format("binary operator '{}' does not support operands '{}' "
+                                         "and '{}'",
+                                         MethodTable::binaryOpToString(op), first.type->getName(),
+                                         second.type->getName()));
+    return MethodResult::Error;
+}
+
 MethodResult MethodTable::unsupportedPropertyLookup(BaseInterpreter* interp, const AnyObject& obj,
                                                     StringView propertyName) {
     interp->returnValue = {};
diff --git a/repos/plywood/src/reflect/ply-reflect/methods/MethodTable.h b/repos/plywood/src/reflect/ply-reflect/methods/MethodTable.h
index 85e5c7d..6656da4 100644
--- a/repos/plywood/src/reflect/ply-reflect/methods/MethodTable.h
+++ b/repos/plywood/src/reflect/ply-reflect/methods/MethodTable.h
@@ -73,6 +73,8 @@ struct MethodTable {
                                            const AnyObject& obj);
     static MethodResult unsupportedBinaryOp(BaseInterpreter* interp, MethodTable::BinaryOp op,
                                             const AnyObject& first, const AnyObject& second);
+    static MethodResult unsupportedOperands(BaseInterpreter* interp, MethodTable::BinaryOp op,
+                                            const AnyObject& first, const AnyObject& second);
     static MethodResult unsupportedPropertyLookup(BaseInterpreter* interp, const AnyObject& obj,
                                                   StringView propertyName);
     static MethodResult unsupportedSubscript(BaseInterpreter* interp, const AnyObject& obj,
-- 
2.43.0


From 8388513d254da44873334998559c1ed7e3ab10a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:44 +0000
Subject: [PATCH 090/118] fix: report division by zero as a runtime error

---
 .../ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp  | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp
index b3e9de6..b6fb6c2 100644
--- a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp
@@ -16,6 +16,12 @@ namespace ply {
 #if PLY_WITH_METHOD_TABLES
 
 struct ArithmeticMethodTable {
+    static PLY_NO_INLINE MethodResult divisionByZero(BaseInterpreter* interp) {
+        interp->returnValue = {};
+        interp->error(interp, "division by zero");
+        return MethodResult::Error;
+    }
+
     template <typename T>
     static PLY_INLINE MethodTable make() {
         MethodTable methods;
@@ -33,12 +39,16 @@ struct ArithmeticMethodTable {
                     return MethodResult::OK;
                 }
                 case MethodTable::BinaryOp::Divide: {
+                    if (*second.cast<T>() == 0)
+                        return divisionByZero(interp);
                     interp->returnValue =
                         *interp->localVariableStorage.appendObject(getTypeDescriptor<T>());
                     *interp->returnValue.cast<T>() = *first.cast<T>() / *second.cast<T>();
                     return MethodResult::OK;
                 }
                 case MethodTable::BinaryOp::Modulo: {
+                    if (*second.cast<T>() == 0)
+                        return divisionByZero(interp);
                     interp->returnValue =
                         *interp->localVariableStorage.appendObject(getTypeDescriptor<T>());
                     *interp->returnValue.cast<T>() = *first.cast<T>() % *second.cast<T>();
-- 
2.43.0


From f1e13691a73992c68566ae7f9e8640f7fddad140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:44 +0000
Subject: [PATCH 091/118] fix: let Crowbar's unary operators bind tighter than
 binary operators

---
 repos/plywood/src/crowbar/ply-crowbar/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
index 63cf8a6..d331970 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
@@ -228,7 +228,7 @@ Owned<Expression> Parser::parseExpression(u32 outerPrecendenceLevel, bool asStat
                 }
                 auto unaryOp = expr->unaryOp().switchTo();
                 unaryOp->op = op;
-                unaryOp->expr = this->parseExpression();
+                unaryOp->expr = this->parseExpression(UnaryOpPrecedence[(u32) op]);
                 break;
             }
         }
-- 
2.43.0


From a9612fb344d6e5542b7f0732f0153d2e7a27b878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:44 +0000
Subject: [PATCH 092/118] fix: find the end of a Crowbar token that's followed
 by a new entry of the file offset table

---
 repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp b/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp
index c4316e2..f517256 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp
@@ -135,7 +135,7 @@ PLY_NO_INLINE u32 expandTokenInternal(ExpandedToken& expToken, Tokenizer* tkr, u
         u32 compactLength = safeDemote<u32>(data - start);
         u32 endOffset = safeDemote<u32>(tkr->vin.cur - tkr->vin.start);
         if (data < tkr->tokenData.end()) {
-            endOffset = tkr->fileOffsetTable[(tokenIdx + 1) >> 8] +
+            endOffset = tkr->fileOffsetTable[(tokenIdx + compactLength) >> 8] +
                         details::LabelEncoder::decodeValue(data);
         }
         expToken.text =
-- 
2.43.0


From c4ce858ce7c96736c24aceb790dbab83251ec1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:44 +0000
Subject: [PATCH 093/118] fix: report an unclosed Crowbar string literal

---
 repos/plywood/src/crowbar/ply-crowbar/Parser.cpp    | 6 ++++--
 repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
index d331970..3e7034c 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
@@ -175,8 +175,10 @@ void parseInterpolatedString(Parser* parser, Expression* expr) {
                 return;
             }
             default: {
-                PLY_ASSERT(0); // Shouldn't get here
-                break;
+                // Either the input ended, or an embedded expression was never closed.
+                error(parser, token, ErrorTokenAction::PushBack,
+                      String::format("unexpected {} inside string literal", token.desc()));
+                return;
             }
         }
     }
diff --git a/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp b/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp
index f517256..fcf0db3 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp
@@ -252,7 +252,9 @@ PLY_NO_INLINE void readString(ExpandedToken& expToken, Tokenizer* tkr) {
         }
     }
 eofError:
-    PLY_ASSERT(0);
+    // The string literal is unclosed. The parser reports this error.
+    expToken.type = TokenType::EndOfFile;
+    return;
 gotStringLiteral:
     String text = mout.moveToString();
     expToken.type = TokenType::StringLiteral;
-- 
2.43.0


From d6d6492e5569f69d138e81e7b999f81b0982e72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:13 +0000
Subject: [PATCH 094/118] fix: end a Crowbar parameter list at the end of the
 file

---
 repos/plywood/src/crowbar/ply-crowbar/Parser.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
index 3e7034c..f5e6387 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
@@ -458,9 +458,9 @@ void parseParameterList(Parser* parser, Statement::FunctionDefinition* functionD
                      parser->recovery.outerAcceptFlags | Parser::RecoveryState::AcceptCloseParen);
     for (;; paramToken = parser->tkr->readToken()) {
         if (paramToken.type != TokenType::Identifier) {
-            if (error(parser, paramToken, ErrorTokenAction::HandleUnexpected,
-                      String::format("expected function parameter; got {}", paramToken.desc())))
-                return;
+            error(parser, paramToken, ErrorTokenAction::HandleUnexpected,
+                  String::format("expected function parameter; got {}", paramToken.desc()));
+            return;
         }
         functionDef->parameterNames.append(paramToken.label);
         ExpandedToken token = parser->tkr->readToken();
@@ -469,10 +469,10 @@ void parseParameterList(Parser* parser, Statement::FunctionDefinition* functionD
             return;
         }
         if (token.type != TokenType::Comma) {
-            if (error(parser, token, ErrorTokenAction::HandleUnexpected,
-                      String::format("expected ',' or ')' after parameter {}; got {}",
-                                     paramToken.desc(), token.desc())))
-                return;
+            error(parser, token, ErrorTokenAction::HandleUnexpected,
+                  String::format("expected ',' or ')' after parameter {}; got {}",
+                                 paramToken.desc(), token.desc()));
+            return;
         }
     }
 }
-- 
2.43.0


From 8f77adce2ca712e202c905dfabe511b6008cb2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:16 +0000
Subject: [PATCH 095/118] fix: escape the brace in the error message for an
 unclosed embedded expression

---
 repos/plywood/src/crowbar/ply-crowbar/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
index f5e6387..92a99ba 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
@@ -163,7 +163,7 @@ void parseInterpolatedString(Parser* parser, Expression* expr) {
                 if (closeToken.type != TokenType::CloseCurly) {
                     error(parser, closeToken, ErrorTokenAction::HandleUnexpected,
                           String::format(
-                              "expected '}' to close embedded expression at {}; got {}",
+                              "expected '}}' to close embedded expression at {}; got {}",
                               parser->tkr->fileLocationMap.formatFileLocation(token.fileOffset),
                               closeToken.desc()));
                     skipAnyScope(parser, nullptr, TokenType::OpenCurly);
-- 
2.43.0


From af394536caf3e783a7d2453feb4651eaf75b255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:33 +0000
Subject: [PATCH 096/118] fix: Short name of a module that exists in several
 repos must be qualified

---
 .../src/build/repo/ply-build-repo/RepoRegistry.cpp   | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
index 82036c7..d5abe28 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
@@ -389,10 +389,14 @@ PLY_NO_INLINE String RepoRegistry::getShortDepSourceName(const DependencySource*
     for (const Repo* repo : this->repos) {
         if (repo == depSrc->repo)
             continue;
-        s32 index =
-            find(repo->externs, [&](const DependencySource* d) { return d->name == depSrc->name; });
-        if (index >= 0) {
-            // Extern name is defined by multiple repos, so qualify it:
+        bool found = false;
+        if (depSrc->type == DependencySource::Extern) {
+            found = (repo->findExternImm(depSrc->name) != nullptr);
+        } else {
+            found = (repo->findTargetInstantiatorImm(depSrc->name) != nullptr);
+        }
+        if (found) {
+            // Extern/module name is defined by multiple repos, so qualify it:
             return String::format("{}.{}", depSrc->repo->repoName, depSrc->name);
         }
     }
-- 
2.43.0


From 43c6499ed116881bda38c6ca562e9b7abde615e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:33 +0000
Subject: [PATCH 097/118] fix: Targets instantiated after a shared root don't
 belong to it

---
 .../src/build/repo/ply-build-repo/ProjectInstantiator.cpp      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp b/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp
index be40e98..8a74db4 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp
@@ -47,6 +47,9 @@ Dependency* ProjectInstantiator::instantiate(const DependencySource* depSrc, boo
     PLY_ASSERT(!cursor.wasFound());
     *cursor = depIndex;
 
+    // A shared root is the container of everything instantiated below it, but of nothing else
+    PLY_SET_IN_SCOPE(this->sharedContainer, this->sharedContainer);
+
     if (depSrc->type == DependencySource::Target) {
         // Create and instantiate the BuildTarget
         const TargetInstantiator* targetInst = static_cast<const TargetInstantiator*>(depSrc);
-- 
2.43.0


From df32d69fd011f052933e3fe46324f7b1a6535f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:33 +0000
Subject: [PATCH 098/118] fix: Loop detection names the target

---
 .../src/build/repo/ply-build-repo/ProjectInstantiator.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp b/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp
index 8a74db4..3b6efc2 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp
@@ -20,7 +20,7 @@ Dependency* ProjectInstantiator::instantiate(const DependencySource* depSrc, boo
         Dependency* dep = this->result->dependencies[*depCursor].dep;
         if (dep && !dep->initialized) {
             instantiatorError(
-                String::format("Loop detected for '{}'",
+                String::format("Loop detected for {} '{}'",
                                depSrc->type == DependencySource::Extern ? "extern" : "target",
                                RepoRegistry::get()->getShortDepSourceName(depSrc)));
             return nullptr;
-- 
2.43.0


From 7c4fb88873741cbbd036d7cfa421f9f56322d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:33 +0000
Subject: [PATCH 099/118] fix: Extern lookup error prints the extern's name

---
 repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
index d5abe28..a3794f4 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
@@ -242,7 +242,7 @@ PLY_NO_INLINE const DependencySource* findExternInternal(const RepoRegistry* rep
         const DependencySource* extern_ = (*repoCursor)->findExternImm(externName);
         if (!extern_) {
             ErrorHandler::log(ErrorHandler::Error,
-                              String::format("Can't find extern '{}' in repo '{}'\n", externName[1],
+                              String::format("Can't find extern '{}' in repo '{}'\n", externName,
                                              (*repoCursor)->repoName));
             return nullptr;
         }
-- 
2.43.0


From a6336e5429d1e2bd5f23b14ab5a51fc0698ea9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:33 +0000
Subject: [PATCH 100/118] fix: Extern lookup fails when the name has too many
 components

---
 repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
index a3794f4..fe11b74 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
@@ -290,6 +290,7 @@ PLY_NO_INLINE const DependencySource* RepoRegistry::findExtern(StringView extern
     if (!comps.isEmpty()) {
         ErrorHandler::log(ErrorHandler::Error,
                           String::format("Too many components in extern name '{}'\n", externName));
+        return nullptr;
     }
     return extern_;
 }
-- 
2.43.0


From f54306a56e0e79382557adf5d69b252b60b822c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:33 +0000
Subject: [PATCH 101/118] fix: Extern provider lookup fails when the provider
 is not named

---
 repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
index fe11b74..a396018 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
@@ -310,6 +310,7 @@ RepoRegistry::getExternProvider(StringView qualifiedName) const {
         ErrorHandler::log(
             ErrorHandler::Error,
             String::format("Not enough components in extern provider name '{}'\n", qualifiedName));
+        return nullptr;
     }
     auto repoCursor = this->repos.find(comps[0]);
     if (repoCursor.wasFound()) {
-- 
2.43.0


From 2b4936ae28e816c7d19151261ce4324e5d651e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:33 +0000
Subject: [PATCH 102/118] fix: ModuleArgs::addTarget rejects names with too
 many components

---
 repos/plywood/src/build/repo/ply-build-repo/ModuleArgs.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/ModuleArgs.cpp b/repos/plywood/src/build/repo/ply-build-repo/ModuleArgs.cpp
index e5bdf03..2fa6ed9 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/ModuleArgs.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/ModuleArgs.cpp
@@ -102,6 +102,12 @@ PLY_NO_INLINE void ModuleArgs::addTarget(Visibility visibility, StringView targe
     }
 
     PLY_ASSERT(targetInst);
+    if (!comps.isEmpty()) {
+        ErrorHandler::log(
+            ErrorHandler::Error,
+            String::format("Too many components in target name '{}'\n", targetName));
+        return;
+    }
     addDependency(this, targetInst, visibility);
 }
 
-- 
2.43.0


From 2c67d467f4f7cff6b61c1ba8f85098730d983101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:33 +0000
Subject: [PATCH 103/118] fix: getTargetOutputPath knows static libraries

---
 repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp b/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
index 03083fc..ad6016f 100644
--- a/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
+++ b/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
@@ -395,7 +395,7 @@ String getTargetOutputPath(BuildTargetType targetType, StringView targetName,
         filePrefix = "lib";
         fileExtension = ".so";
 #endif
-    } else if (targetType == BuildTargetType::DLL) {
+    } else if (targetType == BuildTargetType::Lib) {
 #if PLY_TARGET_WIN32
         fileExtension = ".lib";
 #else
-- 
2.43.0


From 783986230417b10c55e856bd0b55304c38aaaeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:33 +0000
Subject: [PATCH 104/118] fix: Extern providers can be found by their fully
 qualified name

---
 .../src/build/repo/ply-build-repo/RepoRegistry.cpp    | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
index a396018..9724ddc 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
@@ -361,6 +361,17 @@ RepoRegistry::getExternProvider(StringView qualifiedName) const {
             }
         }
 
+        if (conflict && this->repos.find(compsOwner[0]).wasFound()) {
+            // With a repo prefix, this is the fully qualified name of that repo's own provider:
+            s32 j = find(extern_->repo->externProviders, [&](const ExternProvider* p) {
+                return p->extern_ == extern_ && p->providerName == comps[0];
+            });
+            if (j >= 0) {
+                provider = extern_->repo->externProviders[j];
+                conflict = false;
+            }
+        }
+
         if (!provider) {
             ErrorHandler::log(
                 ErrorHandler::Error,
-- 
2.43.0


From a9ca6221b342fc9d976de0fd5aab9853b8520c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:24 +0000
Subject: [PATCH 105/118] fix: WebServer compiles again: the handler comes
 before its hidden argument

---
 repos/plywood/src/apps/WebServer/WebServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/apps/WebServer/WebServer.cpp b/repos/plywood/src/apps/WebServer/WebServer.cpp
index 7a96089..9cebb9a 100644
--- a/repos/plywood/src/apps/WebServer/WebServer.cpp
+++ b/repos/plywood/src/apps/WebServer/WebServer.cpp
@@ -121,7 +121,7 @@ int main(int argc, char* argv[]) {
     allParams.fileSys.rootDir = dataRoot;
     allParams.docs.init(dataRoot);
     allParams.sourceCode.rootDir = NativePath::normalize(PLY_WORKSPACE_FOLDER);
-    if (!runServer(port, {&allParams, myRequestHandler})) {
+    if (!runServer(port, {myRequestHandler, &allParams})) {
         exit(1);
     }
     Socket::shutdown();
-- 
2.43.0


From 76f23c2a31449d43e4708b583de0ef7f18170afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:02 +0000
Subject: [PATCH 106/118] fix: Web requests can't reach files outside the
 served folder

---
 .../common/web-common/FetchFromFileSystem.cpp   | 17 +++++++++++++++--
 .../web/common/web-common/FetchFromFileSystem.h |  3 +++
 .../src/web/common/web-common/SourceCode.cpp    | 11 ++++++++---
 .../serve-docs/ply-web-serve-docs/DocServer.cpp |  3 ++-
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp b/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
index 6e1c13e..005035a 100644
--- a/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
+++ b/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
@@ -8,6 +8,14 @@
 namespace ply {
 namespace web {
 
+bool staysInsideDirectory(StringView relPath) {
+    if (NativePath::isAbsolute(relPath) || relPath.findByte('\0') >= 0)
+        return false;
+    String normPath = NativePath::normalize(relPath);
+    return !normPath.startsWith("..") ||
+           (normPath.numBytes > 2 && !NativePath::isSepByte(normPath[2]));
+}
+
 PLY_NO_INLINE FetchFromFileSystem::FetchFromFileSystem() {
     struct Pair {
         const char* key;
@@ -49,8 +57,13 @@ PLY_NO_INLINE void FetchFromFileSystem::serve(const FetchFromFileSystem* params,
         return;
     }
 
-    String nativePath =
-        NativePath::join(params->rootDir, requestPath.ltrim([](char c) { return c == '/'; }));
+    StringView relPath = requestPath.ltrim([](char c) { return c == '/'; });
+    if (!staysInsideDirectory(relPath)) {
+        // outside the rootDir
+        responseIface->respondGeneric(ResponseCode::NotFound);
+        return;
+    }
+    String nativePath = NativePath::join(params->rootDir, relPath);
 
     // FIXME: Don't load the whole file completely in memory first.
     // Could open the raw pipe and feed it to outs.
diff --git a/repos/plywood/src/web/common/web-common/FetchFromFileSystem.h b/repos/plywood/src/web/common/web-common/FetchFromFileSystem.h
index 2656e84..0c761fb 100644
--- a/repos/plywood/src/web/common/web-common/FetchFromFileSystem.h
+++ b/repos/plywood/src/web/common/web-common/FetchFromFileSystem.h
@@ -9,6 +9,9 @@
 namespace ply {
 namespace web {
 
+// Returns false if joining relPath to a directory could lead outside of that directory.
+bool staysInsideDirectory(StringView relPath);
+
 struct FetchFromFileSystem {
     struct ContentTypeTraits {
         using Key = StringView;
diff --git a/repos/plywood/src/web/common/web-common/SourceCode.cpp b/repos/plywood/src/web/common/web-common/SourceCode.cpp
index ad2c2a0..2f3c3ff 100644
--- a/repos/plywood/src/web/common/web-common/SourceCode.cpp
+++ b/repos/plywood/src/web/common/web-common/SourceCode.cpp
@@ -4,15 +4,20 @@
 ------------------------------------*/
 #include <web-common/Core.h>
 #include <web-common/SourceCode.h>
+#include <web-common/FetchFromFileSystem.h>
 
 namespace ply {
 namespace web {
 
 PLY_NO_INLINE void SourceCode::serve(const SourceCode* params, StringView requestPath,
                                      ResponseIface* responseIface) {
-    // FIXME: Use FileSystem_Virtual and make really, really sure an adversary can't read files
-    // outside the rootDir
-    String normRequestPath = NativePath::normalize(requestPath.ltrim(NativePath::isSepByte));
+    requestPath = requestPath.ltrim(NativePath::isSepByte);
+    if (!staysInsideDirectory(requestPath)) {
+        // outside the rootDir
+        responseIface->respondGeneric(ResponseCode::NotFound);
+        return;
+    }
+    String normRequestPath = NativePath::normalize(requestPath);
     Owned<InStream> ins =
         FileSystem::native()
             ->openTextForReadAutodetect(NativePath::join(params->rootDir, normRequestPath))
diff --git a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
index 4889afc..f84d599 100644
--- a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
+++ b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
@@ -4,6 +4,7 @@
 ------------------------------------*/
 #include <ply-web-serve-docs/Core.h>
 #include <ply-web-serve-docs/DocServer.h>
+#include <web-common/FetchFromFileSystem.h>
 #include <pylon/Parse.h>
 #include <pylon-reflect/Import.h>
 
@@ -103,7 +104,7 @@ void DocServer::reloadContents() {
 
 String getPageSource(DocServer* ds, StringView requestPath, ResponseIface* responseIface) {
     FileSystem* fs = FileSystem::native();
-    if (NativePath::isAbsolute(requestPath)) {
+    if (!staysInsideDirectory(requestPath)) {
         responseIface->respondGeneric(ResponseCode::NotFound);
         return {};
     }
-- 
2.43.0


From 6061a39113b876a3fd5e3ef2c8da85019f9f3458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:02 +0000
Subject: [PATCH 107/118] fix: FetchFromFileSystem looks at the last extension
 of a filename

---
 repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp b/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
index 005035a..294d696 100644
--- a/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
+++ b/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
@@ -43,7 +43,7 @@ PLY_NO_INLINE void FetchFromFileSystem::serve(const FetchFromFileSystem* params,
     }
 
     String filename = NativePath::split(requestPath).second;
-    s32 dotPos = filename.findByte('.');
+    s32 dotPos = filename.rfindByte('.');
     if (dotPos <= 0) {
         // no file extension
         responseIface->respondGeneric(ResponseCode::NotFound);
-- 
2.43.0


From 25c8631a53f0d16d0130e0c5e68095c801a39842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:24 +0000
Subject: [PATCH 108/118] fix: Reading from a connection that was reset doesn't
 take the program down

---
 repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
index 8913365..ced6f87 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
@@ -27,8 +27,7 @@ PLY_NO_INLINE u32 InPipe_FD_readSome(InPipe* inPipe_, MutableStringView buf) {
     do {
         rc = (s32)::read(inPipe->fd, buf.bytes, buf.numBytes);
     } while (rc == -1 && errno == EINTR);
-    PLY_ASSERT(rc >= 0); // Note: Will probably need to detect closed pipes here
-    if (rc < 0)
+    if (rc < 0) // eg. the other end of the connection was reset
         return 0;
     return rc;
 }
-- 
2.43.0


From b41f453576938647b33f5a2c0925cfb6bc324f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:24 +0000
Subject: [PATCH 109/118] fix: The web server survives a connection that can't
 be accepted

---
 repos/plywood/src/web/common/web-common/Server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/web/common/web-common/Server.cpp b/repos/plywood/src/web/common/web-common/Server.cpp
index 76c38f2..366a4a1 100644
--- a/repos/plywood/src/web/common/web-common/Server.cpp
+++ b/repos/plywood/src/web/common/web-common/Server.cpp
@@ -175,6 +175,8 @@ bool runServer(u16 port, const RequestHandler& reqHandler) {
         ThreadParams params;
         params.tcpConn = listener.accept();
         // FIXME: Return if port stopped listening
+        if (!params.tcpConn)
+            continue;
 
         params.reqHandler = reqHandler;
         // FIXME: Use a thread pool instead of spawning a thread for every request
-- 
2.43.0


From 9632c95d30e390879b2c007f5424f1c29f3dcd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:24 +0000
Subject: [PATCH 110/118] fix: DocServer doesn't read its table of contents
 while another thread reloads it

---
 .../ply-web-serve-docs/DocServer.cpp          | 31 +++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
index f84d599..179482e 100644
--- a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
+++ b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
@@ -94,7 +94,9 @@ void DocServer::reloadContents() {
         return;
     }
 
-    pylon::importInto(AnyObject::bind(&this->contents), aRoot);
+    Array<Owned<Contents>> newContents;
+    pylon::importInto(AnyObject::bind(&newContents), aRoot);
+    this->contents = std::move(newContents);
 
     this->pathToContents = HashMap<ContentsTraits>{};
     for (Contents* node : this->contents) {
@@ -140,9 +142,12 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
         }
     }
 
-    if (!this->contents) {
-        responseIface->respondGeneric(ResponseCode::InternalError);
-        return;
+    {
+        ply::LockGuard<ply::Mutex> guard{this->contentsMutex};
+        if (!this->contents) {
+            responseIface->respondGeneric(ResponseCode::InternalError);
+            return;
+        }
     }
 
     // Load page
@@ -152,9 +157,13 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
     ViewInStream vins{pageHtml};
     String pageTitle = vins.readView<fmt::Line>().trim(isWhite);
 
-    // Figure out which TOC entries to expand
-    Array<const Contents*> expandTo;
+    // Dump the TOC while no other thread can reload it
+    String tocHtml;
     {
+        ply::LockGuard<ply::Mutex> guard{this->contentsMutex};
+
+        // Figure out which TOC entries to expand
+        Array<const Contents*> expandTo;
         auto cursor = this->pathToContents.find(
             requestPath ? (StringView{"/docs/"} + requestPath).view() : StringView{"/"});
         if (cursor.wasFound()) {
@@ -164,6 +173,12 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
                 node = node->parent;
             }
         }
+
+        MemOutStream mout;
+        for (const Contents* node : this->contents) {
+            dumpContents(&mout, node, expandTo);
+        }
+        tocHtml = mout.moveToString();
     }
 
     OutStream* outs = responseIface->beginResponseHeader(ResponseCode::OK);
@@ -201,9 +216,7 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
       <div class="inner">
         <ul>
 )#";
-    for (const Contents* node : this->contents) {
-        dumpContents(outs, node, expandTo);
-    }
+    *outs << tocHtml;
     outs->format(R"(
         </ul>
       </div>
-- 
2.43.0


From dd0ae58e70dd3162caf97005eeb8d80b7dd18dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:07 +0000
Subject: [PATCH 111/118] fix: SourceCode doesn't show a directory as an empty
 file

---
 repos/plywood/src/web/common/web-common/SourceCode.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/web/common/web-common/SourceCode.cpp b/repos/plywood/src/web/common/web-common/SourceCode.cpp
index 2f3c3ff..5c5e2ef 100644
--- a/repos/plywood/src/web/common/web-common/SourceCode.cpp
+++ b/repos/plywood/src/web/common/web-common/SourceCode.cpp
@@ -18,10 +18,11 @@ PLY_NO_INLINE void SourceCode::serve(const SourceCode* params, StringView reques
         return;
     }
     String normRequestPath = NativePath::normalize(requestPath);
-    Owned<InStream> ins =
-        FileSystem::native()
-            ->openTextForReadAutodetect(NativePath::join(params->rootDir, normRequestPath))
-            .first;
+    String nativePath = NativePath::join(params->rootDir, normRequestPath);
+    Owned<InStream> ins;
+    if (FileSystem::native()->exists(nativePath) == ExistsResult::File) {
+        ins = FileSystem::native()->openTextForReadAutodetect(nativePath).first;
+    }
     if (!ins) {
         // file could not be loaded
         responseIface->respondGeneric(ResponseCode::NotFound);
-- 
2.43.0


From 2c7299085bca793b8ab2a9dd8fbfc50914e1f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:26 +0000
Subject: [PATCH 112/118] fix: A path that leads through a file is not found,
 instead of taking the program down

---
 .../ply-runtime/filesystem/impl/FileSystem_POSIX.cpp  | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 8839447..c3edfc8 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -188,7 +188,8 @@ PLY_NO_INLINE ExistsResult FileSystem_POSIX::exists(FileSystem*, StringView path
     if (rc == 0)
         return (buf.st_mode & S_IFMT) == S_IFDIR ? ExistsResult::Directory : ExistsResult::File;
     // If something on the way to it is not a directory or can't be searched, we can't see it.
-    if (errno != ENOENT && errno != ENOTDIR && errno != ELOOP && errno != EACCES) {
+    if (errno != ENOENT && errno != ENOTDIR && errno != ELOOP && errno != ENAMETOOLONG &&
+        errno != EACCES) {
         PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
     }
     return ExistsResult::NotFound;
@@ -201,6 +202,9 @@ PLY_NO_INLINE int FileSystem_POSIX::openFDForRead(StringView path) {
     } else {
         switch (errno) {
             case ENOENT:
+            case ENOTDIR: // Something on the way to it is not a directory
+            case ELOOP:
+            case ENAMETOOLONG:
                 FileSystem::setLastResult(FSResult::NotFound);
                 break;
 
@@ -312,7 +316,10 @@ PLY_NO_INLINE FileStatus FileSystem_POSIX::getFileStatus(FileSystem*, StringView
     int rc = stat(path.withNullTerminator().bytes, &buf);
     if (rc != 0) {
         switch (errno) {
-            case ENOENT: {
+            case ENOENT:
+            case ENOTDIR: // Something on the way to it is not a directory
+            case ELOOP:
+            case ENAMETOOLONG: {
                 status.result = FileSystem::setLastResult(FSResult::NotFound);
                 break;
             }
-- 
2.43.0


From 45e23aa7d31e47924a1e9a5542cf61842229c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:03 +0000
Subject: [PATCH 113/118] fix: cook: checking a dependency on a missing file no
 longer asserts

---
 repos/plywood/src/cook/ply-cook/CookJob.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/cook/ply-cook/CookJob.cpp b/repos/plywood/src/cook/ply-cook/CookJob.cpp
index 9216dae..f2bf415 100644
--- a/repos/plywood/src/cook/ply-cook/CookJob.cpp
+++ b/repos/plywood/src/cook/ply-cook/CookJob.cpp
@@ -56,8 +56,9 @@ DependencyType DependencyType_File = {
         // FIXME: Use a safe cast once reflection supports derived classes
         Dependency_File* depFile = static_cast<Dependency_File*>(dep_);
         FileStatus stat = FileSystem::native()->getFileStatus(depFile->path);
-        PLY_ASSERT(stat.result == FSResult::OK);
-        if (stat.modificationTime != depFile->modificationTime) {
+        // A file that's missing (or that couldn't be opened during the last cook) has time 0
+        double modificationTime = stat.result == FSResult::OK ? stat.modificationTime : 0;
+        if (modificationTime != depFile->modificationTime) {
             SLOG(Cook, "Recooking \"{}\" because \"{}\" changed", result->job->id.str(),
                  depFile->path);
             return true;
-- 
2.43.0


From bac5acc838bb211210019f42a28f94dede024908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:03 +0000
Subject: [PATCH 114/118] fix: CookContext::isCooked no longer marks the job as
 being cooked

---
 repos/plywood/src/cook/ply-cook/CookJob.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/cook/ply-cook/CookJob.cpp b/repos/plywood/src/cook/ply-cook/CookJob.cpp
index f2bf415..f2cd3da 100644
--- a/repos/plywood/src/cook/ply-cook/CookJob.cpp
+++ b/repos/plywood/src/cook/ply-cook/CookJob.cpp
@@ -261,7 +261,7 @@ CookResult* CookContext::getAlreadyCookedResult(const CookJobID& id) {
 }
 
 bool CookContext::isCooked(CookJob* job) {
-    auto cursor = this->checkedJobs.insertOrFind(job);
+    auto cursor = this->checkedJobs.find(job);
     return cursor.wasFound() && cursor->status == CookContext::UpToDate;
 }
 
-- 
2.43.0


From 63c07438302ac23795b92e9a9394455d73c2edc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:03 +0000
Subject: [PATCH 115/118] fix: a CookJob that goes away unlinks its result from
 the database

---
 repos/plywood/src/cook/ply-cook/CookJob.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/repos/plywood/src/cook/ply-cook/CookJob.cpp b/repos/plywood/src/cook/ply-cook/CookJob.cpp
index f2cd3da..781d5b1 100644
--- a/repos/plywood/src/cook/ply-cook/CookJob.cpp
+++ b/repos/plywood/src/cook/ply-cook/CookJob.cpp
@@ -132,6 +132,9 @@ CookJob::~CookJob() {
     auto iter = depTracker->allCookJobs.findFirstGreaterOrEqualTo(&this->id);
     PLY_ASSERT(iter.isValid() && iter.getItem()->id == this->id);
     depTracker->allCookJobs.remove(iter);
+    if (this->result) {
+        this->result->unlinkFromDatabase();
+    }
 }
 
 //------------------------------
-- 
2.43.0


From ac98d0b620255993155d103ef11202c6cbded9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:03 +0000
Subject: [PATCH 116/118] fix: jobs seen by a CookContext stay alive until
 endCook

---
 repos/plywood/src/cook/ply-cook/CookJob.cpp | 1 +
 repos/plywood/src/cook/ply-cook/CookJob.h   | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/cook/ply-cook/CookJob.cpp b/repos/plywood/src/cook/ply-cook/CookJob.cpp
index 781d5b1..bc1a8c8 100644
--- a/repos/plywood/src/cook/ply-cook/CookJob.cpp
+++ b/repos/plywood/src/cook/ply-cook/CookJob.cpp
@@ -186,6 +186,7 @@ void CookContext::beginCook() {
 void CookContext::endCook() {
     PLY_ASSERT(CookContext::current_ = this);
     PLY_ASSERT(DependencyTracker::current_ = this->depTracker);
+    this->checkedJobs = {};
     CookContext::current_ = nullptr;
     DependencyTracker::current_ = nullptr;
 }
diff --git a/repos/plywood/src/cook/ply-cook/CookJob.h b/repos/plywood/src/cook/ply-cook/CookJob.h
index 465d3b6..af43c73 100644
--- a/repos/plywood/src/cook/ply-cook/CookJob.h
+++ b/repos/plywood/src/cook/ply-cook/CookJob.h
@@ -162,7 +162,7 @@ struct CookContext {
     struct CheckedTraits {
         using Key = CookJob*;
         struct Item {
-            CookJob* job;
+            Reference<CookJob> job;
             Status status;
             PLY_INLINE Item(CookJob* job) : job{job}, status{CookInProgress} {
             }
@@ -174,8 +174,8 @@ struct CookContext {
 
     struct DeferredTraits {
         using Key = CookJob*;
-        using Item = CookJob*;
-        static PLY_INLINE bool match(Item item, Key key) {
+        using Item = Reference<CookJob>;
+        static PLY_INLINE bool match(const Item& item, Key key) {
             return item == key;
         }
     };
@@ -187,6 +187,7 @@ struct CookContext {
     }
 
     DependencyTracker* depTracker = nullptr;
+    // Both of these keep the jobs alive until endCook().
     // Alternatively, checkedTypes and checkedJobs *could* just be implemented as a status code in
     // every CookJob/CookJobType...
     HashMap<CheckedTraits> checkedJobs;
-- 
2.43.0


From b12c6abc0c9e5a816d58f2838f8c78e96c6d63e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:28 +0000
Subject: [PATCH 117/118] fix: the cook module compiles again

---
 repos/plywood/src/cook/ply-cook/CookJob.cpp | 2 +-
 repos/plywood/src/cook/ply-cook/CookJob.h   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/cook/ply-cook/CookJob.cpp b/repos/plywood/src/cook/ply-cook/CookJob.cpp
index bc1a8c8..7cf2b7c 100644
--- a/repos/plywood/src/cook/ply-cook/CookJob.cpp
+++ b/repos/plywood/src/cook/ply-cook/CookJob.cpp
@@ -224,7 +224,7 @@ void CookContext::ensureCooked(CookJob* job, AnyObject jobArg) {
             job->result->unlinkFromDatabase();
         }
         Owned<CookResult> oldResult = std::move(job->result);
-        job->result = (CookResult*) AnyObject::create(job->id.type->resultType).ptr;
+        job->result = (CookResult*) AnyObject::create(job->id.type->resultType).data;
         job->result->job = job;
         job->id.type->cook(job->result, jobArg);
     } else {
diff --git a/repos/plywood/src/cook/ply-cook/CookJob.h b/repos/plywood/src/cook/ply-cook/CookJob.h
index af43c73..63c233c 100644
--- a/repos/plywood/src/cook/ply-cook/CookJob.h
+++ b/repos/plywood/src/cook/ply-cook/CookJob.h
@@ -6,6 +6,7 @@
 #include <ply-cook/Core.h>
 #include <ply-runtime/container/Hash128.h>
 #include <ply-reflect/StaticPtr.h>
+#include <ply-reflect/AnyOwnedObject.h>
 #include <ply-runtime/container/BTree.h>
 
 namespace ply {
-- 
2.43.0


From 44ec46cf7182d0ecc4af43e56cd0002663f825c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:28 +0000
Subject: [PATCH 118/118] fix: DependencyTracker no longer destroys its user
 data twice

---
 repos/plywood/src/cook/ply-cook/CookJob.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/cook/ply-cook/CookJob.cpp b/repos/plywood/src/cook/ply-cook/CookJob.cpp
index 7cf2b7c..36caf8b 100644
--- a/repos/plywood/src/cook/ply-cook/CookJob.cpp
+++ b/repos/plywood/src/cook/ply-cook/CookJob.cpp
@@ -163,7 +163,7 @@ DependencyTracker::~DependencyTracker() {
     PLY_SET_IN_SCOPE(current_, this);
     this->rootReferences.clear();
     this->allCookJobs.clear();
-    this->userData.destroy();
+    this->userData = AnyOwnedObject{};
 }
 
 //------------------------------
-- 
2.43.0

