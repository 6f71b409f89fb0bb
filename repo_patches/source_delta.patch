From 8ea1ba7d57cb6c34599876521c9b67752069315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 01/68] fix: build the new value before dropping the old one
 when assigning to EitherOr

Assigning a container (a part of) the value it holds destroyed the value
first and then copied or moved from the dead object.
---
 src/common/base/EitherOr.h | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/common/base/EitherOr.h b/src/common/base/EitherOr.h
index 900480d..1ba4701 100644
--- a/src/common/base/EitherOr.h
+++ b/src/common/base/EitherOr.h
@@ -264,32 +264,22 @@ public:
      * Assignments
      *
      **********************************************/
+    // The new value is always constructed before the current one is destroyed,
+    // because the argument may be (a part of) the value currently held
     EitherOr& operator=(const LEFT& v) noexcept {
-        reset();
-        new (&val_) Variant(kConstructLeft, v);
-        state_ = State::LEFT_TYPE;
-        return *this;
+        return *this = EitherOr(v);
     }
 
     EitherOr& operator=(LEFT&& v) noexcept {
-        reset();
-        new (&val_) Variant(kConstructLeft, std::move(v));
-        state_ = State::LEFT_TYPE;
-        return *this;
+        return *this = EitherOr(std::move(v));
     }
 
     EitherOr& operator=(const RIGHT& v) noexcept {
-        reset();
-        new (&val_) Variant(kConstructRight, v);
-        state_ = State::RIGHT_TYPE;
-        return *this;
+        return *this = EitherOr(v);
     }
 
     EitherOr& operator=(RIGHT&& v) noexcept {
-        reset();
-        new (&val_) Variant(kConstructRight, std::move(v));
-        state_ = State::RIGHT_TYPE;
-        return *this;
+        return *this = EitherOr(std::move(v));
     }
 
     // Assign from a value which can only construct either LEFT or RIGHT,
@@ -300,10 +290,7 @@ public:
         EitherOr
     >&
     operator=(U&& v) noexcept {
-        reset();
-        new (&val_) Variant(convert_to_t<U>, std::forward<U>(v));
-        state_ = convert_to_s<U>;
-        return *this;
+        return *this = EitherOr(std::forward<U>(v));
     }
 
     EitherOr& operator=(const EitherOr& rhs) noexcept {
-- 
2.43.0


From 8b19a49fa97c99a187f5801a400a158e7af8a3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 02/68] fix: append a cord that is empty, has other block
 sizes, or is the same cord

---
 src/common/base/Cord.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/common/base/Cord.cpp b/src/common/base/Cord.cpp
index 102afa2..cd0648a 100644
--- a/src/common/base/Cord.cpp
+++ b/src/common/base/Cord.cpp
@@ -226,17 +226,15 @@ Cord& Cord::operator<<(const char* value) {
 }
 
 Cord& Cord::operator<<(const Cord& rhs) {
-    char* next = rhs.head_;
-    while (next != rhs.tail_) {
-        write(next, blockContentSize_);
-        // Get the pointer to the next block
-        memcpy(reinterpret_cast<char*>(&next),
-               next + blockContentSize_,
-               sizeof(char*));
+    if (this == &rhs) {
+        // Appending to itself would never reach the end
+        return *this << rhs.str();
     }
 
-    // Last block
-    write(rhs.tail_, rhs.blockPt_);
+    rhs.applyTo([this] (const char* data, int32_t len) {
+        write(data, len);
+        return true;
+    });
 
     return *this;
 }
-- 
2.43.0


From 7d90818435f313ecdd70857c5a36d94476887022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 03/68] fix: keep a full last block when visiting or appending
 an ICord, and allow reuse after clear

---
 src/common/base/ICord.h | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/common/base/ICord.h b/src/common/base/ICord.h
index 3432616..a7d0aa5 100644
--- a/src/common/base/ICord.h
+++ b/src/common/base/ICord.h
@@ -47,8 +47,8 @@ public:
 
         len_ = 0;
 
-        head_ = nullptr;
-        tail_ = nullptr;
+        head_ = inlineBlock_;
+        tail_ = head_;
     }
 
     // Apply each block to the visitor until the end or the visitor
@@ -69,7 +69,7 @@ public:
         }
 
         // Last block
-        return visitor(tail_, lengthMod());
+        return visitor(tail_, lastBlockLength());
     }
 
     // Append the cord content to the given string
@@ -86,8 +86,7 @@ public:
         }
 
         // Last block
-        std::size_t lengthModSize = lengthMod();
-        str.append(tail_, lengthModSize == 0 ? kBlockContentSize : lengthModSize);
+        str.append(tail_, lastBlockLength());
 
         return len_;
     }
@@ -181,15 +180,15 @@ public:
     }
 
     ICord<kBlockContentSize>& operator<<(const ICord& rhs) {
-        char* n = rhs.head_;
-        while (n != rhs.tail_) {
-            write(n, kBlockContentSize);
-            // Get the pointer to the next block
-            n = next(n);
+        if (this == &rhs) {
+            // Appending to itself would never reach the end
+            return *this << rhs.str();
         }
 
-        // Last block
-        write(rhs.tail_, rhs.lengthMod());
+        rhs.applyTo([this] (const char* data, int32_t len) {
+            write(data, len);
+            return true;
+        });
 
         return *this;
     }
@@ -208,6 +207,11 @@ private:
         return len_ & (kBlockContentSize - 1);
     }
 
+    // Used size in last block of a non-empty cord, which may be full
+    std::size_t lastBlockLength() const {
+        return isFull() ? kBlockContentSize : lengthMod();
+    }
+
     // Is there only inline allocation
     bool isInline() const {
         return len_ < kBlockContentSize;
-- 
2.43.0


From b243111abca131932c6a6482c56600f751818c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 04/68] fix: keep the fraction of the tick rate when
 calibrating the tick counter

---
 src/common/time/detail/TscHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/time/detail/TscHelper.cpp b/src/common/time/detail/TscHelper.cpp
index a6c8799..352eb0a 100644
--- a/src/common/time/detail/TscHelper.cpp
+++ b/src/common/time/detail/TscHelper.cpp
@@ -61,8 +61,8 @@ void TscHelper::calibrate() {
     auto dur = std::chrono::steady_clock::now() - startMonoTime_;
     uint64_t tickDiff = readTscImpl() - firstTick_;
 
-    uint64_t ticksPerUSec =
-        tickDiff / std::chrono::duration_cast<std::chrono::microseconds>(dur).count();
+    double ticksPerUSec = static_cast<double>(tickDiff) /
+        std::chrono::duration_cast<std::chrono::microseconds>(dur).count();
     ticksPerSecFactor_ = 1.0 / ticksPerUSec / 1000000.0;
     ticksPerMSecFactor_ = 1.0 / ticksPerUSec / 1000.0;
     ticksPerUSecFactor_ = 1.0 / ticksPerUSec;
-- 
2.43.0


From c89636cf33274f40b5a70fd0c9969cedc30ff837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 05/68] fix: compare and clear every field of the graph
 responses

---
 src/common/graph/Response.cpp | 3 +++
 src/common/graph/Response.h   | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common/graph/Response.cpp b/src/common/graph/Response.cpp
index 4d91952..adb0e22 100644
--- a/src/common/graph/Response.cpp
+++ b/src/common/graph/Response.cpp
@@ -15,6 +15,9 @@ bool PlanNodeDescription::operator==(const PlanNodeDescription &rhs) const {
     if (id != rhs.id) {
         return false;
     }
+    if (outputVar != rhs.outputVar) {
+        return false;
+    }
     if (!checkPointer(description.get(), rhs.description.get())) {
         return false;
     }
diff --git a/src/common/graph/Response.h b/src/common/graph/Response.h
index fe18498..2f6559c 100644
--- a/src/common/graph/Response.h
+++ b/src/common/graph/Response.h
@@ -211,6 +211,8 @@ struct AuthResponse {
         errorCode = ErrorCode::SUCCEEDED;
         sessionId = nullptr;
         errorMsg = nullptr;
+        timeZoneOffsetSeconds = nullptr;
+        timeZoneName = nullptr;
     }
 
     void clear() {
@@ -230,7 +232,7 @@ struct AuthResponse {
         if (!checkPointer(timeZoneOffsetSeconds.get(), rhs.timeZoneOffsetSeconds.get())) {
             return false;
         }
-        return checkPointer(timeZoneName.get(), timeZoneName.get());
+        return checkPointer(timeZoneName.get(), rhs.timeZoneName.get());
     }
 
     ErrorCode errorCode{ErrorCode::SUCCEEDED};
@@ -359,7 +361,8 @@ struct PlanDescription {
     bool operator==(const PlanDescription &rhs) const {
         return planNodeDescs == rhs.planNodeDescs &&
             nodeIndexMap == rhs.nodeIndexMap &&
-            format == rhs.format;
+            format == rhs.format &&
+            optimize_time_in_us == rhs.optimize_time_in_us;
     }
 
     std::vector<PlanNodeDescription>     planNodeDescs;
-- 
2.43.0


From 72778f01e336530c4b217ce7040cadbf13168e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:41 +0000
Subject: [PATCH 06/68] fix: keep the whole message of a status, however long

---
 src/common/base/Status.cpp | 4 ++--
 src/common/base/Status.h   | 9 ++++-----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/common/base/Status.cpp b/src/common/base/Status.cpp
index 2e9ad75..fe6dd06 100644
--- a/src/common/base/Status.cpp
+++ b/src/common/base/Status.cpp
@@ -10,7 +10,7 @@
 namespace nebula {
 
 Status::Status(Code code, folly::StringPiece msg) {
-    const uint16_t size = msg.size();
+    const uint32_t size = msg.size();
     auto state = std::unique_ptr<char[]>(new char[size + kHeaderSize]);
     auto *header = reinterpret_cast<Header*>(state.get());
     header->size_ = size;
@@ -35,7 +35,7 @@ std::string Status::toString() const {
 }
 
 std::unique_ptr<const char[]> Status::copyState(const char *state) {
-    const auto size = *reinterpret_cast<const uint16_t*>(state);
+    const auto size = reinterpret_cast<const Header*>(state)->size_;
     const auto total = size + kHeaderSize;
     auto result = std::unique_ptr<char[]>(new char[total]);
     ::memcpy(&result[0], state, total);
diff --git a/src/common/base/Status.h b/src/common/base/Status.h
index 9694de7..94b6325 100644
--- a/src/common/base/Status.h
+++ b/src/common/base/Status.h
@@ -198,7 +198,7 @@ public:
 
 private:
     // REQUIRES: stat_ != nullptr
-    uint16_t size() const {
+    uint32_t size() const {
         return reinterpret_cast<const Header*>(state_.get())->size_;
     }
 
@@ -212,15 +212,14 @@ private:
 
 private:
     struct Header {
-        uint16_t                    size_;
+        uint32_t                    size_;
         Code                        code_;
     };
     static constexpr auto kHeaderSize = sizeof(Header);
     // state_ == nullptr indicates OK
     // otherwise, the buffer layout is:
-    // state_[0..1]                 length of the error msg, i.e. size() - kHeaderSize
-    // state_[2..3]                 code
-    // state_[4...]                 verbose error message
+    // Header                       length of the error msg, and code
+    // state_[kHeaderSize...]       verbose error message
     std::unique_ptr<const char[]>   state_;
 };
 
-- 
2.43.0


From 3784ada20e0489d54ddc58a174e8a2a8b5cc2adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:41 +0000
Subject: [PATCH 07/68] fix: do not cut the formatted message of a status at
 255 characters

---
 src/common/base/Status.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/common/base/Status.cpp b/src/common/base/Status.cpp
index fe6dd06..a167475 100644
--- a/src/common/base/Status.cpp
+++ b/src/common/base/Status.cpp
@@ -44,8 +44,15 @@ std::unique_ptr<const char[]> Status::copyState(const char *state) {
 
 
 std::string Status::format(const char *fmt, va_list args) {
-    char result[256];
-    vsnprintf(result, sizeof(result), fmt, args);
+    va_list copy;
+    va_copy(copy, args);
+    auto size = vsnprintf(nullptr, 0, fmt, copy);
+    va_end(copy);
+    if (size <= 0) {
+        return "";
+    }
+    std::string result(size, '\0');
+    vsnprintf(&result[0], size + 1, fmt, args);
     return result;
 }
 
-- 
2.43.0


From 1a2b261cdfb24b42d84f12c742e23872a5af616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:41 +0000
Subject: [PATCH 08/68] fix: separate the text of ListenerNotFound from its
 message

---
 src/common/base/Status.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/base/Status.cpp b/src/common/base/Status.cpp
index a167475..254113c 100644
--- a/src/common/base/Status.cpp
+++ b/src/common/base/Status.cpp
@@ -104,7 +104,7 @@ const char *Status::toString(Code code) {
         case kPermissionError:
             return "PermissionError: ";
         case kListenerNotFound:
-            return "ListenerNotFound";
+            return "ListenerNotFound: ";
     }
     DLOG(FATAL) << "Invalid status code: " << static_cast<uint16_t>(code);
     return "";
-- 
2.43.0


From 626154e219a988cb1757596ab6646f0a4fb787d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 09/68] fix: build the new value before dropping the old one
 when assigning to StatusOr

---
 src/common/base/StatusOr.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/common/base/StatusOr.h b/src/common/base/StatusOr.h
index fa5a85c..a8f67bf 100644
--- a/src/common/base/StatusOr.h
+++ b/src/common/base/StatusOr.h
@@ -193,12 +193,10 @@ public:
     }
 
     // Move assigment operator from a rvalue of any compatible type with `T'
+    // The new one is constructed first, since the argument may be held by `*this'
     template <typename U, typename = std::enable_if_t<is_initializable_v<U>>>
     StatusOr& operator=(U &&value) noexcept {
-        destruct();
-        new (&variant_) Variant(std::forward<U>(value));
-        state_ = kValue;
-        return *this;
+        return *this = StatusOr(std::forward<U>(value));
     }
 
     // Copy assign from a lvalue of `Status'
-- 
2.43.0


From 944828ec45e2a288ee20b476ad5de75343a4328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 10/68] fix: makeDir fails on a symbolic link that leads to no
 directory

---
 src/common/fs/FileUtils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/fs/FileUtils.cpp b/src/common/fs/FileUtils.cpp
index c44cc38..cbe054b 100644
--- a/src/common/fs/FileUtils.cpp
+++ b/src/common/fs/FileUtils.cpp
@@ -331,9 +331,13 @@ bool FileUtils::makeDir(const std::string& dir, uint32_t mode) {
         return false;
     }
     FileType type = fileType(dir.c_str());
-    if (type == FileType::DIRECTORY || type == FileType::SYM_LINK) {
+    if (type == FileType::DIRECTORY) {
         // The directory already exists
         return true;
+    } else if (type == FileType::SYM_LINK) {
+        // It exists if the link leads to a directory
+        struct stat st;
+        return ::stat(dir.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
     } else if (type != FileType::NOTEXIST) {
         // A file has existed, cannot create the directory
         return false;
-- 
2.43.0


From 0031e644bb0ce4fe51ddf2f980f1bd9f85cf9499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 11/68] fix: readLink returns the whole content of a long
 symbolic link

---
 src/common/fs/FileUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/fs/FileUtils.cpp b/src/common/fs/FileUtils.cpp
index cbe054b..babe8e1 100644
--- a/src/common/fs/FileUtils.cpp
+++ b/src/common/fs/FileUtils.cpp
@@ -15,7 +15,7 @@
 namespace nebula {
 namespace fs {
 
-static const int32_t kMaxPathLen = 1024;
+static const int32_t kMaxPathLen = PATH_MAX;
 
 namespace detail {
 
-- 
2.43.0


From 5bc808c868bd4898df5165dbb578a937087118f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:59 +0000
Subject: [PATCH 12/68] fix: dirname of a path that contains a newline

---
 src/common/fs/FileUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/fs/FileUtils.cpp b/src/common/fs/FileUtils.cpp
index babe8e1..4deadae 100644
--- a/src/common/fs/FileUtils.cpp
+++ b/src/common/fs/FileUtils.cpp
@@ -112,7 +112,7 @@ std::string FileUtils::dirname(const char *path) {
     if (::strcmp("/", path) == 0) {     // root only
         return "/";
     }
-    static const std::regex pattern("(.*)/([^/]+)/?");
+    static const std::regex pattern("([\\s\\S]*)/([^/]+)/?");
     std::cmatch result;
     if (std::regex_match(path, result, pattern)) {
         if (result[1].first == result[1].second) {    // "/path" or "/path/"
-- 
2.43.0


From e34b7a9f327921e0a14db99bfa2038abeda34820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 13/68] fix: keep the failure to open what a symbolic link
 leads to

---
 src/common/fs/FileUtils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/fs/FileUtils.cpp b/src/common/fs/FileUtils.cpp
index 4deadae..d987903 100644
--- a/src/common/fs/FileUtils.cpp
+++ b/src/common/fs/FileUtils.cpp
@@ -553,6 +553,7 @@ void FileUtils::Iterator::openFileOrDirectory() {
         }
         path_ = std::move(result).value();
         openFileOrDirectory();
+        return;
     } else {
         status_ = Status::Error("Filetype not supported `%s': %s",
                                 path_.c_str(), FileUtils::getFileTypeName(type_));
-- 
2.43.0


From 6a5bd7ca088386d671d56e9a8f8f10ffb40a4181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 14/68] fix: the remainder of the smallest integer by -1
 trapped

---
 src/common/datatypes/Value.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index dffc374..27476f7 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -2368,6 +2368,10 @@ Value operator%(const Value& lhs, const Value& rhs) {
             switch (rhs.type()) {
                 case Value::Type::INT: {
                     int64_t denom = rhs.getInt();
+                    if (denom == -1) {
+                        // INT_MIN % -1 traps
+                        return 0;
+                    }
                     if (denom != 0) {
                         return lhs.getInt() % denom;
                     } else {
-- 
2.43.0


From 831c2b6b46b7d05ef8051947b9e00612e065556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 15/68] fix: joining a string with a bool or an int cut it at
 an embedded NUL

---
 src/common/datatypes/Value.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index 27476f7..0df1273 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -1922,9 +1922,7 @@ Value operator+(const Value& lhs, const Value& rhs) {
         case Value::Type::BOOL: {
             switch (rhs.type()) {
                 case Value::Type::STRING: {
-                    return folly::stringPrintf("%s%s",
-                                               lhs.getBool() ? "true" : "false",
-                                               rhs.getStr().c_str());
+                    return (lhs.getBool() ? "true" : "false") + rhs.getStr();
                 }
                 case Value::Type::LIST: {
                     auto ret = rhs.getList();
@@ -1951,9 +1949,7 @@ Value operator+(const Value& lhs, const Value& rhs) {
                     return lhs.getInt() + rhs.getFloat();
                 }
                 case Value::Type::STRING: {
-                    return folly::stringPrintf("%ld%s",
-                                               lhs.getInt(),
-                                               rhs.getStr().c_str());
+                    return folly::to<std::string>(lhs.getInt()) + rhs.getStr();
                 }
                 case Value::Type::DATE: {
                     return rhs.getDate() + lhs.getInt();
@@ -1992,14 +1988,10 @@ Value operator+(const Value& lhs, const Value& rhs) {
         case Value::Type::STRING: {
             switch (rhs.type()) {
                 case Value::Type::BOOL: {
-                    return folly::stringPrintf("%s%s",
-                                               lhs.getStr().c_str(),
-                                               rhs.getBool() ? "true" : "false");
+                    return lhs.getStr() + (rhs.getBool() ? "true" : "false");
                 }
                 case Value::Type::INT: {
-                    return folly::stringPrintf("%s%ld",
-                                               lhs.getStr().c_str(),
-                                               rhs.getInt());
+                    return lhs.getStr() + folly::to<std::string>(rhs.getInt());
                 }
                 case Value::Type::FLOAT: {
                     return lhs.getStr() + folly::to<std::string>(rhs.getFloat());
-- 
2.43.0


From 3aefea898f6f6ccaa3e355515ae213a82e2ad07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 16/68] fix: conversion of strings to numbers took empty and
 cut strings for numbers, and let floats overflow the integers

---
 src/common/datatypes/Value.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index 0df1273..08f7f46 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -1597,7 +1597,7 @@ Value Value::toFloat() const {
             const auto& str = getStr();
             char* pEnd;
             double val = strtod(str.c_str(), &pEnd);
-            if (*pEnd != '\0') {
+            if (str.empty() || pEnd != str.c_str() + str.size()) {
                 return Value::kNullValue;
             }
             return val;
@@ -1632,11 +1632,20 @@ Value Value::toInt() const {
             errno = 0;
             char* pEnd;
             auto it = std::find(str.begin(), str.end(), '.');
-            int64_t val =
-                (it == str.end())
-                    ? int64_t(strtoll(str.c_str(), &pEnd, 10))   // string representing int
-                    : int64_t(strtod(str.c_str(), &pEnd));       // string representing double
-            if (*pEnd != '\0') {
+            int64_t val = 0;
+            if (it == str.end()) {
+                val = strtoll(str.c_str(), &pEnd, 10);           // string representing int
+            } else {
+                double dVal = strtod(str.c_str(), &pEnd);        // string representing double
+                // -2^63 <= dVal < 2^63
+                if (dVal >= -9223372036854775808.0 && dVal < 9223372036854775808.0) {
+                    val = static_cast<int64_t>(dVal);
+                } else {
+                    val = std::numeric_limits<int64_t>::max();
+                    errno = ERANGE;
+                }
+            }
+            if (str.empty() || pEnd != str.c_str() + str.size()) {
                 return Value::kNullValue;
             }
             // Check overflow
-- 
2.43.0


From 0238b0ad21975dd40beda8069f837199b1e0f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 17/68] fix: steps were not ordered by their ranking and
 properties

---
 src/common/datatypes/Path.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/datatypes/Path.h b/src/common/datatypes/Path.h
index e6c9522..1e163b6 100644
--- a/src/common/datatypes/Path.h
+++ b/src/common/datatypes/Path.h
@@ -98,7 +98,7 @@ struct Step {
         if (dst != rhs.dst) {
             return dst < rhs.dst;
         }
-        if (type != rhs.dst) {
+        if (type != rhs.type) {
             return type < rhs.type;
         }
         if (ranking != rhs.ranking) {
-- 
2.43.0


From 851fea89381ccf45eb5b0539fc0b324d2c946a52 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 18/68] fix: the out-of-range null had no type name

---
 src/common/datatypes/Value.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index 08f7f46..e7f4596 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -452,6 +452,7 @@ const std::string& Value::typeName() const {
         { NullType::ERR_OVERFLOW, "ERR_OVERFLOW" },
         { NullType::UNKNOWN_PROP, "UNKNOWN_PROP" },
         { NullType::DIV_BY_ZERO, "DIV_BY_ZERO" },
+        { NullType::OUT_OF_RANGE, "OUT_OF_RANGE" },
     };
 
     static const std::string unknownType = "__UNKNOWN__";
-- 
2.43.0


From 13f104594b51efbf2249dcc8db5ebee138d066da Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 19/68] fix: assigning a part of a value to the value used it
 after destroying it

---
 src/common/datatypes/Value.cpp | 94 +++-------------------------------
 1 file changed, 6 insertions(+), 88 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index e7f4596..7a082f0 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -1070,8 +1070,10 @@ void Value::clear() {
 }
 
 
-Value& Value::operator=(Value&& rhs) noexcept {
-    if (this == &rhs) { return *this; }
+Value& Value::operator=(Value&& other) noexcept {
+    if (this == &other) { return *this; }
+    // The other value might be a part of this one
+    Value rhs(std::move(other));
     clear();
     if (rhs.type_ == Type::__EMPTY__) { return *this; }
     switch (rhs.type_) {
@@ -1163,92 +1165,8 @@ Value& Value::operator=(Value&& rhs) noexcept {
 
 Value& Value::operator=(const Value& rhs) {
     if (this == &rhs) { return *this; }
-    clear();
-    if (rhs.type_ == Type::__EMPTY__) { return *this; }
-    switch (rhs.type_) {
-        case Type::NULLVALUE:
-        {
-            setN(rhs.value_.nVal);
-            break;
-        }
-        case Type::BOOL:
-        {
-            setB(rhs.value_.bVal);
-            break;
-        }
-        case Type::INT:
-        {
-            setI(rhs.value_.iVal);
-            break;
-        }
-        case Type::FLOAT:
-        {
-            setF(rhs.value_.fVal);
-            break;
-        }
-        case Type::STRING:
-        {
-            setS(*rhs.value_.sVal);
-            break;
-        }
-        case Type::DATE:
-        {
-            setD(rhs.value_.dVal);
-            break;
-        }
-        case Type::TIME:
-        {
-            setT(rhs.value_.tVal);
-            break;
-        }
-        case Type::DATETIME:
-        {
-            setDT(rhs.value_.dtVal);
-            break;
-        }
-        case Type::VERTEX:
-        {
-            setV(rhs.value_.vVal);
-            break;
-        }
-        case Type::EDGE:
-        {
-            setE(rhs.value_.eVal);
-            break;
-        }
-        case Type::PATH:
-        {
-            setP(rhs.value_.pVal);
-            break;
-        }
-        case Type::LIST:
-        {
-            setL(rhs.value_.lVal);
-            break;
-        }
-        case Type::MAP:
-        {
-            setM(rhs.value_.mVal);
-            break;
-        }
-        case Type::SET:
-        {
-            setU(rhs.value_.uVal);
-            break;
-        }
-        case Type::DATASET:
-        {
-            setG(rhs.value_.gVal);
-            break;
-        }
-        default:
-        {
-            assert(false);
-            break;
-        }
-    }
-    type_ = rhs.type_;
-    return *this;
+    // The other value might be a part of this one
+    return *this = Value(rhs);
 }
 
 
-- 
2.43.0


From 23e2f0db8b7ebc9f71ea0afb1f8b399fde4ad367 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 20/68] fix: setting a value to a part of what it holds used it
 after destroying it

---
 src/common/datatypes/Value.cpp | 112 +++++++++++----------------------
 1 file changed, 38 insertions(+), 74 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index 7a082f0..ef0a459 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -471,129 +471,105 @@ const std::string& Value::typeName() const {
     return find->second;
 }
 
+// What is set might be a part of this value, hence it is taken before the rest is cleared
 void Value::setNull(const NullType& v) {
-    clear();
-    setN(v);
+    *this = Value(v);
 }
 
 void Value::setNull(NullType&& v) {
-    clear();
-    setN(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setBool(const bool& v) {
-    clear();
-    setB(v);
+    *this = Value(v);
 }
 
 void Value::setBool(bool&& v) {
-    clear();
-    setB(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setInt(const int8_t& v) {
-    clear();
-    setI(v);
+    *this = Value(v);
 }
 
 void Value::setInt(int8_t&& v) {
-    clear();
-    setI(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setInt(const int16_t& v) {
-    clear();
-    setI(v);
+    *this = Value(v);
 }
 
 void Value::setInt(int16_t&& v) {
-    clear();
-    setI(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setInt(const int32_t& v) {
-    clear();
-    setI(v);
+    *this = Value(v);
 }
 
 void Value::setInt(int32_t&& v) {
-    clear();
-    setI(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setInt(const int64_t& v) {
-    clear();
-    setI(v);
+    *this = Value(v);
 }
 
 void Value::setInt(int64_t&& v) {
-    clear();
-    setI(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setFloat(const double& v) {
-    clear();
-    setF(v);
+    *this = Value(v);
 }
 
 void Value::setFloat(double&& v) {
-    clear();
-    setF(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setStr(const std::string& v) {
-    clear();
-    setS(v);
+    *this = Value(v);
 }
 
 void Value::setStr(std::string&& v) {
-    clear();
-    setS(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setStr(const char* v) {
-    clear();
-    setS(v);
+    *this = Value(v);
 }
 
 void Value::setDate(const Date& v) {
-    clear();
-    setD(v);
+    *this = Value(v);
 }
 
 void Value::setDate(Date&& v) {
-    clear();
-    setD(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setTime(const Time& v) {
-    clear();
-    setT(v);
+    *this = Value(v);
 }
 
 void Value::setTime(Time&& v) {
-    clear();
-    setT(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setDateTime(const DateTime& v) {
-    clear();
-    setDT(v);
+    *this = Value(v);
 }
 
 void Value::setDateTime(DateTime&& v) {
-    clear();
-    setDT(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setVertex(const Vertex& v) {
-    clear();
-    setV(v);
+    *this = Value(v);
 }
 
 void Value::setVertex(Vertex&& v) {
-    clear();
-    setV(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setVertex(std::unique_ptr<Vertex>&& v) {
@@ -602,13 +578,11 @@ void Value::setVertex(std::unique_ptr<Vertex>&& v) {
 }
 
 void Value::setEdge(const Edge& v) {
-    clear();
-    setE(v);
+    *this = Value(v);
 }
 
 void Value::setEdge(Edge&& v) {
-    clear();
-    setE(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setEdge(std::unique_ptr<Edge>&& v) {
@@ -617,13 +591,11 @@ void Value::setEdge(std::unique_ptr<Edge>&& v) {
 }
 
 void Value::setPath(const Path& v) {
-    clear();
-    setP(v);
+    *this = Value(v);
 }
 
 void Value::setPath(Path&& v) {
-    clear();
-    setP(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setPath(std::unique_ptr<Path>&& v) {
@@ -632,13 +604,11 @@ void Value::setPath(std::unique_ptr<Path>&& v) {
 }
 
 void Value::setList(const List& v) {
-    clear();
-    setL(v);
+    *this = Value(v);
 }
 
 void Value::setList(List&& v) {
-    clear();
-    setL(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setList(std::unique_ptr<List>&& v) {
@@ -647,13 +617,11 @@ void Value::setList(std::unique_ptr<List>&& v) {
 }
 
 void Value::setMap(const Map& v) {
-    clear();
-    setM(v);
+    *this = Value(v);
 }
 
 void Value::setMap(Map&& v) {
-    clear();
-    setM(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setMap(std::unique_ptr<Map>&& v) {
@@ -662,13 +630,11 @@ void Value::setMap(std::unique_ptr<Map>&& v) {
 }
 
 void Value::setSet(const Set& v) {
-    clear();
-    setU(v);
+    *this = Value(v);
 }
 
 void Value::setSet(Set&& v) {
-    clear();
-    setU(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setSet(std::unique_ptr<Set>&& v) {
@@ -677,13 +643,11 @@ void Value::setSet(std::unique_ptr<Set>&& v) {
 }
 
 void Value::setDataSet(const DataSet& v) {
-    clear();
-    setG(v);
+    *this = Value(v);
 }
 
 void Value::setDataSet(DataSet&& v) {
-    clear();
-    setG(std::move(v));
+    *this = Value(std::move(v));
 }
 
 void Value::setDataSet(std::unique_ptr<DataSet>&& v) {
-- 
2.43.0


From f86da5dd49cfb9efa099f38757a43c5c9e8052ba Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 21/68] fix: paths were appended that do not start where the
 path ends

---
 src/common/datatypes/Path.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/datatypes/Path.cpp b/src/common/datatypes/Path.cpp
index afa25e9..b419b58 100644
--- a/src/common/datatypes/Path.cpp
+++ b/src/common/datatypes/Path.cpp
@@ -28,7 +28,8 @@ void Path::reverse() {
 }
 
 bool Path::append(Path path) {
-    if (src != path.src && steps.back().dst != path.src) {
+    const auto& end = steps.empty() ? src : steps.back().dst;
+    if (end != path.src) {
         return false;
     }
     steps.reserve(steps.size() + path.steps.size());
-- 
2.43.0


From 2a6eaa621d9df22287d538edc2b8c9829790deb4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 22/68] fix: merging data sets put the values before and the
 columns behind the existing ones

---
 src/common/datatypes/DataSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/datatypes/DataSet.h b/src/common/datatypes/DataSet.h
index 5b2b2b5..75d8f10 100644
--- a/src/common/datatypes/DataSet.h
+++ b/src/common/datatypes/DataSet.h
@@ -127,7 +127,7 @@ struct DataSet {
                         std::make_move_iterator(o.colNames.end()));
         for (std::size_t i = 0; i < rowSize(); ++i) {
             rows[i].values.reserve(newColSize);
-            rows[i].values.insert(rows[i].values.begin(),
+            rows[i].values.insert(rows[i].values.end(),
                                   std::make_move_iterator(o.rows[i].values.begin()),
                                   std::make_move_iterator(o.rows[i].values.end()));
         }
-- 
2.43.0


From e8f97f7f66d5b654c31d4c9c6e3612c6ad02cb9f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 23/68] fix: the type and the ranking of new edges and steps
 were left uninitialized

---
 src/common/datatypes/Edge.h | 4 ++--
 src/common/datatypes/Path.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/datatypes/Edge.h b/src/common/datatypes/Edge.h
index 288b3f2..aae1c16 100644
--- a/src/common/datatypes/Edge.h
+++ b/src/common/datatypes/Edge.h
@@ -17,9 +17,9 @@ namespace nebula {
 struct Edge {
     Value src;
     Value dst;
-    EdgeType type;
+    EdgeType type{0};
     std::string name;
-    EdgeRanking ranking;
+    EdgeRanking ranking{0};
     std::unordered_map<std::string, Value> props;
 
     Edge() {}
diff --git a/src/common/datatypes/Path.h b/src/common/datatypes/Path.h
index 1e163b6..6e72f0b 100644
--- a/src/common/datatypes/Path.h
+++ b/src/common/datatypes/Path.h
@@ -15,9 +15,9 @@ namespace nebula {
 
 struct Step {
     Vertex dst;
-    EdgeType type;
+    EdgeType type{0};
     std::string name;
-    EdgeRanking ranking;
+    EdgeRanking ranking{0};
     std::unordered_map<std::string, Value> props;
 
     Step() = default;
-- 
2.43.0


From 9d1400dd351f03c4a16f16e1a3f516c13054a802 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 24/68] fix: the size of a response with texts could not be
 computed

The optional texts of ExecutionResponse are pointers; serializedSize passed
the pointers instead of the texts, so that it did not compile.
---
 src/common/graph/ExecutionResponseOps.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/graph/ExecutionResponseOps.inl b/src/common/graph/ExecutionResponseOps.inl
index bbd233e..d7ca6cb 100644
--- a/src/common/graph/ExecutionResponseOps.inl
+++ b/src/common/graph/ExecutionResponseOps.inl
@@ -299,11 +299,11 @@ uint32_t Cpp2Ops<::nebula::ExecutionResponse>::serializedSize(
     }
     if (obj->spaceName != nullptr) {
         xfer += proto->serializedFieldSize("space_name", apache::thrift::protocol::T_STRING, 4);
-        xfer += proto->serializedSizeBinary(obj->spaceName);
+        xfer += proto->serializedSizeBinary(*obj->spaceName);
     }
     if (obj->errorMsg != nullptr) {
         xfer += proto->serializedFieldSize("error_msg", apache::thrift::protocol::T_STRING, 5);
-        xfer += proto->serializedSizeBinary(obj->errorMsg);
+        xfer += proto->serializedSizeBinary(*obj->errorMsg);
     }
     if (obj->planDesc != nullptr) {
         xfer += proto->serializedFieldSize("plan_desc", apache::thrift::protocol::T_STRUCT, 6);
@@ -312,7 +312,7 @@ uint32_t Cpp2Ops<::nebula::ExecutionResponse>::serializedSize(
     }
     if (obj->comment != nullptr) {
         xfer += proto->serializedFieldSize("comment", apache::thrift::protocol::T_STRING, 7);
-        xfer += proto->serializedSizeBinary(obj->comment);
+        xfer += proto->serializedSizeBinary(*obj->comment);
     }
     xfer += proto->serializedSizeStop();
     return xfer;
-- 
2.43.0


From 5386ca85cc7c3aeea34915e44d4137ef17ad7c4d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 25/68] fix: the values of a set were not found by their name

Protocols with field names look up the type of "values"; it was given as a
struct, not a set, and the field was skipped as such.
---
 src/common/datatypes/SetOps.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/datatypes/SetOps.inl b/src/common/datatypes/SetOps.inl
index 79a80c8..6b75511 100644
--- a/src/common/datatypes/SetOps.inl
+++ b/src/common/datatypes/SetOps.inl
@@ -29,7 +29,7 @@ struct TccStructTraits<nebula::Set> {
             MAYBE_UNUSED apache::thrift::protocol::TType& _ftype) {
         if (_fname == "values") {
             fid = 1;
-            _ftype = apache::thrift::protocol::T_STRUCT;
+            _ftype = apache::thrift::protocol::T_SET;
         }
     }
 };
-- 
2.43.0


From fa3afd2589878b70e37a57a98072d9ef2662b37a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 26/68] fix: times were read wrongly when a newer peer sent one
 more field

Reading a Time or DateTime took an i32 field after the last known one for
the end of the struct, and an i16 in place of the hour of a Time for a byte.
---
 src/common/datatypes/DateOps.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/datatypes/DateOps.inl b/src/common/datatypes/DateOps.inl
index 1503851..00cdc39 100644
--- a/src/common/datatypes/DateOps.inl
+++ b/src/common/datatypes/DateOps.inl
@@ -291,7 +291,7 @@ void Cpp2Ops<nebula::Time>::read(Protocol* proto, nebula::Time* obj) {
 
     using apache::thrift::protocol::TProtocolException;
 
-    if (UNLIKELY(!readState.advanceToNextField(proto, 0, 1, protocol::T_I16))) {
+    if (UNLIKELY(!readState.advanceToNextField(proto, 0, 1, protocol::T_BYTE))) {
         goto _loop;
     }
 
@@ -328,7 +328,7 @@ _readField_microsec:
             ::read(*proto, obj->microsec);
     }
 
-    if (UNLIKELY(!readState.advanceToNextField(proto, 4, 5, protocol::T_I32))) {
+    if (UNLIKELY(!readState.advanceToNextField(proto, 4, 0, protocol::T_STOP))) {
         goto _loop;
     }
 
@@ -623,7 +623,7 @@ _readField_microsec:
         obj->microsec = microsec;
     }
 
-    if (UNLIKELY(!readState.advanceToNextField(proto, 7, 8, protocol::T_I32))) {
+    if (UNLIKELY(!readState.advanceToNextField(proto, 7, 0, protocol::T_STOP))) {
         goto _loop;
     }
 
-- 
2.43.0


From 05e81e6f0453f708f29e9f4e6f32cad45e393489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 27/68] fix: the index of an encoded column was read as a value

---
 src/common/expression/ColumnExpression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/expression/ColumnExpression.cpp b/src/common/expression/ColumnExpression.cpp
index c98066a..fed5504 100644
--- a/src/common/expression/ColumnExpression.cpp
+++ b/src/common/expression/ColumnExpression.cpp
@@ -39,7 +39,7 @@ void ColumnExpression::writeTo(Encoder &encoder) const {
 }
 
 void ColumnExpression::resetFrom(Decoder &decoder) {
-    index_ = decoder.readValue().getInt();
+    index_ = static_cast<int32_t>(decoder.readSize());
 }
 
 }   // namespace nebula
-- 
2.43.0


From 6cb3ca152d92bed302e11c4511432566b596f749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 28/68] fix: an empty operand after a null made AND and OR a
 bad type

---
 src/common/expression/LogicalExpression.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/common/expression/LogicalExpression.cpp b/src/common/expression/LogicalExpression.cpp
index 71ab117..3d7547d 100644
--- a/src/common/expression/LogicalExpression.cpp
+++ b/src/common/expression/LogicalExpression.cpp
@@ -36,8 +36,10 @@ const Value& LogicalExpression::evalAnd(ExpressionContext &ctx) {
         if (!value.isBool()) {
             if (value.isNull()) {
                 result_ = value;
-            } else if (value.empty() && !result_.isNull()) {
-                result_ = value;
+            } else if (value.empty()) {
+                if (!result_.isNull()) {
+                    result_ = value;
+                }
             } else {
                 result_ = Value::kNullBadType;
                 return result_;
@@ -61,8 +63,10 @@ const Value& LogicalExpression::evalOr(ExpressionContext &ctx) {
         if (!value.isBool()) {
             if (value.isNull()) {
                 result_ = value;
-            } else if (value.empty() && !result_.isNull()) {
-                result_ = value;
+            } else if (value.empty()) {
+                if (!result_.isNull()) {
+                    result_ = value;
+                }
             } else {
                 result_ = Value::kNullBadType;
                 return result_;
-- 
2.43.0


From 4d0230b27518bc0e86e86981dd66732516369a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 29/68] fix: aggregates over distinct values equalled those
 over all values

---
 src/common/expression/AggregateExpression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/expression/AggregateExpression.cpp b/src/common/expression/AggregateExpression.cpp
index 72b3d78..4f2258d 100644
--- a/src/common/expression/AggregateExpression.cpp
+++ b/src/common/expression/AggregateExpression.cpp
@@ -14,7 +14,7 @@ bool AggregateExpression::operator==(const Expression& rhs) const {
     }
 
     const auto& r = static_cast<const AggregateExpression&>(rhs);
-    return name_ == r.name_ && *arg_ == *(r.arg_);
+    return name_ == r.name_ && distinct_ == r.distinct_ && *arg_ == *(r.arg_);
 }
 
 void AggregateExpression::writeTo(Encoder& encoder) const {
-- 
2.43.0


From 66baf85b09aa3b7847ee29a36f088c466b999f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 30/68] fix: an unknown built-in property of an edge gave the
 previous result

---
 src/common/expression/AttributeExpression.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/expression/AttributeExpression.cpp b/src/common/expression/AttributeExpression.cpp
index c0f228b..a006dc9 100644
--- a/src/common/expression/AttributeExpression.cpp
+++ b/src/common/expression/AttributeExpression.cpp
@@ -46,6 +46,8 @@ const Value& AttributeExpression::eval(ExpressionContext &ctx) {
                     result_ = lvalue.getEdge().ranking;
                 } else if (rvalue.getStr() == kType) {
                     result_ = lvalue.getEdge().name;
+                } else {
+                    return Value::kNullUnknownProp;
                 }
                 return result_;
             }
-- 
2.43.0


From 6d0ccf31d80cdc9409e14badbb716c048a201400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 31/68] fix: copying and comparing a variable without a version
 used a null pointer

---
 src/common/expression/VariableExpression.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/expression/VariableExpression.h b/src/common/expression/VariableExpression.h
index 5abbd1b..c4f3bd9 100644
--- a/src/common/expression/VariableExpression.h
+++ b/src/common/expression/VariableExpression.h
@@ -87,6 +87,9 @@ public:
             return false;
         }
 
+        if (version_ == nullptr || vve.version_ == nullptr) {
+            return version_ == vve.version_;
+        }
         return *version_ == *vve.version_;
     }
 
@@ -95,7 +98,8 @@ public:
     void accept(ExprVisitor* visitor) override;
 
     Expression* clone() const override {
-        return VersionedVariableExpression::make(pool_, var(), version_->clone());
+        return VersionedVariableExpression::make(
+            pool_, var(), version_ != nullptr ? version_->clone() : nullptr);
     }
 
 private:
-- 
2.43.0


From cbe8b49619901b84f4640709b0c676653291b985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 32/68] fix: incrementing a versioned variable took it for a
 plain one

---
 src/common/expression/UnaryExpression.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/common/expression/UnaryExpression.cpp b/src/common/expression/UnaryExpression.cpp
index 0af1039..0b7c0dc 100644
--- a/src/common/expression/UnaryExpression.cpp
+++ b/src/common/expression/UnaryExpression.cpp
@@ -61,8 +61,10 @@ const Value& UnaryExpression::eval(ExpressionContext& ctx) {
                 break;
             }
             result_ = operand_->eval(ctx) + 1;
-            auto* varExpr = static_cast<VariableExpression*>(operand_);
-            ctx.setVar(varExpr->var(), result_);
+            const auto& var = operand_->kind() == Kind::kVar
+                                  ? static_cast<VariableExpression*>(operand_)->var()
+                                  : static_cast<VersionedVariableExpression*>(operand_)->var();
+            ctx.setVar(var, result_);
             break;
         }
         case Kind::kUnaryDecr: {
@@ -72,8 +74,10 @@ const Value& UnaryExpression::eval(ExpressionContext& ctx) {
                 break;
             }
             result_ = operand_->eval(ctx) - 1;
-            auto* varExpr = static_cast<VariableExpression*>(operand_);
-            ctx.setVar(varExpr->var(), result_);
+            const auto& var = operand_->kind() == Kind::kVar
+                                  ? static_cast<VariableExpression*>(operand_)->var()
+                                  : static_cast<VersionedVariableExpression*>(operand_)->var();
+            ctx.setVar(var, result_);
             break;
         }
         case Kind::kIsNull: {
-- 
2.43.0


From 3f0fc74d44df5bc87b7c56839bff44e893b23e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 33/68] fix: printing an attribute took a label for a constant

---
 src/common/expression/AttributeExpression.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/expression/AttributeExpression.cpp b/src/common/expression/AttributeExpression.cpp
index a006dc9..7a76eb5 100644
--- a/src/common/expression/AttributeExpression.cpp
+++ b/src/common/expression/AttributeExpression.cpp
@@ -81,9 +81,9 @@ std::string AttributeExpression::toString() const {
     buf.reserve(256);
     buf += left()->toString();
     buf += '.';
-    auto *constant = static_cast<const ConstantExpression*>(right());
-    if (constant->value().isStr()) {
-        buf += constant->value().getStr();
+    if (right()->kind() == Kind::kConstant
+            && static_cast<const ConstantExpression*>(right())->value().isStr()) {
+        buf += static_cast<const ConstantExpression*>(right())->value().getStr();
     } else {
         buf += right()->toString();
     }
-- 
2.43.0


From d5737e6e0500facac39b5b47473706b3f59e356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 34/68] fix: copies of a text search lost its options, and none
 was equal to another

---
 src/common/expression/TextSearchExpression.cpp | 6 ++++--
 src/common/expression/TextSearchExpression.h   | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common/expression/TextSearchExpression.cpp b/src/common/expression/TextSearchExpression.cpp
index 1b35f98..90373c2 100644
--- a/src/common/expression/TextSearchExpression.cpp
+++ b/src/common/expression/TextSearchExpression.cpp
@@ -10,7 +10,9 @@
 namespace nebula {
 
 bool TextSearchArgument::operator==(const TextSearchArgument& rhs) const {
-    return val_ == rhs.val_ &&
+    return from_ == rhs.from_ &&
+           prop_ == rhs.prop_ &&
+           val_ == rhs.val_ &&
            op_ == rhs.op_ &&
            fuzziness_ == rhs.fuzziness_ &&
            limit_ == rhs.limit_ &&
@@ -45,7 +47,7 @@ bool TextSearchExpression::operator==(const Expression& rhs) const {
     }
 
     const auto& r = dynamic_cast<const TextSearchExpression&>(rhs);
-    return arg_ == r.arg_;
+    return *arg_ == *r.arg_;
 }
 
 std::string TextSearchExpression::toString() const {
diff --git a/src/common/expression/TextSearchExpression.h b/src/common/expression/TextSearchExpression.h
index 1b0a992..06f1f0b 100644
--- a/src/common/expression/TextSearchExpression.h
+++ b/src/common/expression/TextSearchExpression.h
@@ -127,6 +127,10 @@ public:
 
     Expression* clone() const override {
         auto arg = TextSearchArgument::make(pool_, arg_->from(), arg_->prop(), arg_->val());
+        arg->setOP(arg_->op());
+        arg->setFuzziness(arg_->fuzziness());
+        arg->setLimit(arg_->limit());
+        arg->setTimeout(arg_->timeout());
         return pool_->add(new TextSearchExpression(pool_, kind_, arg));
     }
 
-- 
2.43.0


From f66b47dd2d1420a072a2d3ccf0e844d5d743a1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 35/68] fix: the text of a uuid was cut at an embedded NUL

---
 src/common/expression/UUIDExpression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/expression/UUIDExpression.cpp b/src/common/expression/UUIDExpression.cpp
index a87eab4..5772c8f 100644
--- a/src/common/expression/UUIDExpression.cpp
+++ b/src/common/expression/UUIDExpression.cpp
@@ -43,7 +43,7 @@ const Value& UUIDExpression::eval(ExpressionContext& ctx) {
 }
 
 std::string UUIDExpression::toString() const {
-    return folly::stringPrintf("uuid(\"%s\")", field_.c_str());
+    return "uuid(\"" + field_ + "\")";
 }
 
 void UUIDExpression::accept(ExprVisitor* visitor) {
-- 
2.43.0


From f20990533e6ad1ad9a1b0ddaf7242a6b992da04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 36/68] fix: adding or subtracting very many days from a date
 went on for ever

---
 src/common/datatypes/Value.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index ef0a459..1108245 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -1802,6 +1802,28 @@ std::ostream& operator<<(std::ostream& os, const Value::Type& type) {
     return os;
 }
 
+// Dates reach from -32768/1/1, which is day 0, to 32767/12/31
+static bool isDate(int64_t days) {
+    static const int64_t kLastDay = Date(32767, 12, 31).toInt();
+    return days >= 0 && days <= kLastDay;
+}
+
+static Value addDays(const Date& date, int64_t days) {
+    int64_t sum;
+    if (__builtin_add_overflow(date.toInt(), days, &sum) || !isDate(sum)) {
+        return Value::kNullOverflow;
+    }
+    return date + days;
+}
+
+static Value subDays(const Date& date, int64_t days) {
+    int64_t res;
+    if (__builtin_sub_overflow(date.toInt(), days, &res) || !isDate(res)) {
+        return Value::kNullOverflow;
+    }
+    return date - days;
+}
+
 Value operator+(const Value& lhs, const Value& rhs) {
     if (lhs.isNull() || (lhs.empty() && !rhs.isNull())) {
         return lhs;
@@ -1844,7 +1866,7 @@ Value operator+(const Value& lhs, const Value& rhs) {
                     return folly::to<std::string>(lhs.getInt()) + rhs.getStr();
                 }
                 case Value::Type::DATE: {
-                    return rhs.getDate() + lhs.getInt();
+                    return addDays(rhs.getDate(), lhs.getInt());
                 }
                 case Value::Type::LIST: {
                     auto ret = rhs.getList();
@@ -1913,7 +1935,7 @@ Value operator+(const Value& lhs, const Value& rhs) {
         case Value::Type::DATE: {
             switch (rhs.type()) {
                 case Value::Type::INT: {
-                    return lhs.getDate() + rhs.getInt();
+                    return addDays(lhs.getDate(), rhs.getInt());
                 }
                 case Value::Type::STRING: {
                     return lhs.getDate().toString() + rhs.getStr();
@@ -2105,7 +2127,7 @@ Value operator-(const Value& lhs, const Value& rhs) {
         case Value::Type::DATE: {
             switch (rhs.type()) {
                 case Value::Type::INT: {
-                    return lhs.getDate() - rhs.getInt();
+                    return subDays(lhs.getDate(), rhs.getInt());
                 }
                 case Value::Type::DATE: {
                     return lhs.getDate().toInt() - rhs.getDate().toInt();
-- 
2.43.0


From a2846f63edb6e7e665cb14c51db76960696aafc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 37/68] fix: lpad() with nothing to pad with ran forever

---
 src/common/function/FunctionManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 008dc51..19741ca 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1271,6 +1271,9 @@ FunctionManager::FunctionManager() {
                     return value.substr(0, static_cast<int32_t>(size));
                 } else {
                     auto extra = args[2].get().getStr();
+                    if (extra.empty()) {
+                        return value;
+                    }
                     size -= value.size();
                     std::stringstream stream;
                     while (size > static_cast<int64_t>(extra.size())) {
-- 
2.43.0


From ec938fe63fa22be2888c2b6b48e464f88cd1d718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 38/68] fix: rpad() with nothing to pad with ran forever

---
 src/common/function/FunctionManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 19741ca..161f320 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1304,6 +1304,9 @@ FunctionManager::FunctionManager() {
                     return value.substr(0, static_cast<int32_t>(size));
                 } else {
                     auto extra = args[2].get().getStr();
+                    if (extra.empty()) {
+                        return value;
+                    }
                     std::stringstream stream;
                     stream << value;
                     size -= value.size();
-- 
2.43.0


From cf172c6919ea48336bf4fd3ffc07595d833b4a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 39/68] fix: abs() of the least integer overflowed

---
 src/common/function/FunctionManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 161f320..1be13e3 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -280,7 +280,11 @@ FunctionManager::FunctionManager() {
                     return Value::kNullValue;
                 }
                 case Value::Type::INT: {
-                    return std::abs(args[0].get().getInt());
+                    auto val = args[0].get().getInt();
+                    if (val == std::numeric_limits<int64_t>::min()) {
+                        return Value::kNullOverflow;
+                    }
+                    return std::abs(val);
                 }
                 case Value::Type::FLOAT: {
                     return std::abs(args[0].get().getFloat());
-- 
2.43.0


From 6de6978c17d3f088d0f5f58dd8fa3219008de4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 40/68] fix: substr() cut its length to 32 bits

---
 src/common/function/FunctionManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 1be13e3..e70cb05 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1342,7 +1342,7 @@ FunctionManager::FunctionManager() {
             }
             auto value = args[0].get().getStr();
             auto start = args[1].get().getInt();
-            auto length = 0;
+            int64_t length = 0;
             if (argSize == 3) {
                 length = args[2].get().getInt();
             } else {
-- 
2.43.0


From 0c01a45a4723a40160e27071dfa90716406360ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 41/68] fix: head() of an empty list read behind its end

---
 src/common/function/FunctionManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index e70cb05..f84f35d 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1868,7 +1868,11 @@ FunctionManager::FunctionManager() {
                     return Value::kNullValue;
                 }
                 case Value::Type::LIST: {
-                    return args[0].get().getList().values.front();
+                    const auto &values = args[0].get().getList().values;
+                    if (values.empty()) {
+                        return Value::kNullValue;
+                    }
+                    return values.front();
                 }
                 default: {
                     return Value::kNullBadType;
-- 
2.43.0


From 8f8b5504a5e2b39e21d10116ea6c7d4ac16bc34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 42/68] fix: last() of an empty list read behind its end

---
 src/common/function/FunctionManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index f84f35d..a93328b 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1891,7 +1891,11 @@ FunctionManager::FunctionManager() {
                     return Value::kNullValue;
                 }
                 case Value::Type::LIST: {
-                    return args[0].get().getList().values.back();
+                    const auto &values = args[0].get().getList().values;
+                    if (values.empty()) {
+                        return Value::kNullValue;
+                    }
+                    return values.back();
                 }
                 default: {
                     return Value::kNullBadType;
-- 
2.43.0


From 9e04f88228f7348f7510fba4757041176bb06545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 43/68] fix: range() up to the greatest integers overflowed

---
 src/common/function/FunctionManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index a93328b..6bf90d1 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1632,8 +1632,11 @@ FunctionManager::FunctionManager() {
             }
 
             List res;
-            for (auto i = start; step > 0? i <= end : i >= end; i = i + step) {
+            for (auto i = start; step > 0? i <= end : i >= end; ) {
                 res.emplace_back(i);
+                if (__builtin_add_overflow(i, step, &i)) {
+                    break;
+                }
             }
             return Value(res);
         };
-- 
2.43.0


From c9cb78b219288c87e56c7fa74e917340d9286303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 44/68] fix: pow() of integers gave any number where the result
 is no integer

---
 src/common/function/FunctionManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 6bf90d1..8b62423 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -476,6 +476,9 @@ FunctionManager::FunctionManager() {
                     args[1].get().getFloat();
                 auto val = std::pow(base, exp);
                 if (args[0].get().isInt() && args[1].get().isInt()) {
+                    if (!(val >= -0x1p63 && val < 0x1p63)) {
+                        return Value::kNullOverflow;
+                    }
                     return static_cast<int64_t>(val);
                 }
                 return val;
-- 
2.43.0


From dadf7b68a62d11fae994e3edcedbccd3cd6afea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 45/68] fix: strcasecmp() took no notice of what follows a zero
 byte

---
 src/common/function/FunctionManager.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 8b62423..3224bf9 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -921,8 +921,11 @@ FunctionManager::FunctionManager() {
         attr.isPure_ = true;
         attr.body_ = [](const auto &args) -> Value {
             if (args[0].get().isStr() && args[1].get().isStr()) {
-                return static_cast<int64_t>(
-                    ::strcasecmp(args[0].get().getStr().c_str(), args[1].get().getStr().c_str()));
+                auto lhs = args[0].get().getStr();
+                auto rhs = args[1].get().getStr();
+                folly::toLowerAscii(lhs);
+                folly::toLowerAscii(rhs);
+                return static_cast<int64_t>(lhs.compare(rhs));
             }
             return Value::kNullBadType;
         };
-- 
2.43.0


From 44de09e4d70582edbcc5b409851c21dd1a780011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 46/68] fix: rand() was said to give always the same

---
 src/common/function/FunctionManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 3224bf9..5950083 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -829,7 +829,7 @@ FunctionManager::FunctionManager() {
         auto &attr = functions_["rand"];
         attr.minArity_ = 0;
         attr.maxArity_ = 0;
-        attr.isPure_ = true;
+        attr.isPure_ = false;
         attr.body_ = [](const auto &args) -> Value {
             UNUSED(args);
             return folly::Random::randDouble01();
-- 
2.43.0


From 52107f912a80f973349af7982bbc123c1061b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 47/68] fix: rand32() with a great maximum gave negative
 numbers

---
 src/common/function/FunctionManager.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 5950083..4c5ace5 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -851,8 +851,7 @@ FunctionManager::FunctionManager() {
                     if (max < 0 || max > std::numeric_limits<uint32_t>::max()) {
                         return Value::kNullBadData;
                     }
-                    auto value = folly::Random::rand32(max);
-                    return static_cast<int64_t>(static_cast<int32_t>(value));
+                    return static_cast<int64_t>(folly::Random::rand32(max));
                 }
                 return Value::kNullBadType;
             }
-- 
2.43.0


From 6c6c981d353f8630b7e11b1e42bc0c5bf0a79b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 48/68] fix: toString() of a great number gave what is no
 number

---
 src/common/function/FunctionManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 4c5ace5..6e32092 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1211,7 +1211,8 @@ FunctionManager::FunctionManager() {
                 }
                 case Value::Type::FLOAT: {
                     auto str = folly::to<std::string>(args[0].get().getFloat());
-                    std::size_t found = str.find('.');
+                    // neither `1E21' nor `Infinity' goes with a fraction
+                    std::size_t found = str.find_first_not_of("-0123456789");
                     if (found == std::string::npos) {
                         str += ".0";
                     }
-- 
2.43.0


From 1982aa26e5b44dc98480552809bcc9531ca788bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:44 +0000
Subject: [PATCH 49/68] fix: dates and times were read from texts that end
 early, with arbitrary rest

---
 src/common/time/TimeUtils.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/common/time/TimeUtils.h b/src/common/time/TimeUtils.h
index 5e01b39..6d056a5 100644
--- a/src/common/time/TimeUtils.h
+++ b/src/common/time/TimeUtils.h
@@ -50,13 +50,16 @@ public:
 
     // TODO(shylock) support more format
     static StatusOr<DateTime> parseDateTime(const std::string &str) {
-        std::tm tm;
+        // get_time() does not fail when the text ends early
+        std::tm tm = {};
+        tm.tm_sec = -1;
         std::istringstream ss(str);
         ss >> std::get_time(&tm, "%Y-%m-%dT%H:%M:%S");
-        if (ss.fail()) {
+        if (ss.fail() || tm.tm_sec < 0) {
+            tm.tm_sec = -1;
             std::istringstream ss2(str);
             ss2 >> std::get_time(&tm, "%Y-%m-%d %H:%M:%S");
-            if (ss2.fail()) {
+            if (ss2.fail() || tm.tm_sec < 0) {
                 return Status::Error();
             }
         }
@@ -125,10 +128,12 @@ public:
 
     // TODO(shylock) support more format
     static StatusOr<Date> parseDate(const std::string &str) {
-        std::tm tm;
+        // get_time() does not fail when the text ends early
+        std::tm tm = {};
+        tm.tm_mday = -1;
         std::istringstream ss(str);
         ss >> std::get_time(&tm, "%Y-%m-%d");
-        if (ss.fail()) {
+        if (ss.fail() || tm.tm_mday < 0) {
             return Status::Error();
         }
         Date d;
@@ -176,10 +181,12 @@ public:
 
     // TODO(shylock) support more format
     static StatusOr<Time> parseTime(const std::string &str) {
-        std::tm tm;
+        // get_time() does not fail when the text ends early
+        std::tm tm = {};
+        tm.tm_sec = -1;
         std::istringstream ss(str);
         ss >> std::get_time(&tm, "%H:%M:%S");
-        if (ss.fail()) {
+        if (ss.fail() || tm.tm_sec < 0) {
             return Status::Error();
         }
         Time t;
-- 
2.43.0


From 27edd7d085320b5fc59b5b15a63dc363bee51d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:44 +0000
Subject: [PATCH 50/68] fix: the local time was as far behind as it should be
 ahead of UTC

---
 src/common/time/TimeUtils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/time/TimeUtils.h b/src/common/time/TimeUtils.h
index 6d056a5..3393ec6 100644
--- a/src/common/time/TimeUtils.h
+++ b/src/common/time/TimeUtils.h
@@ -91,7 +91,7 @@ public:
     static DateTime localDateTime() {
         auto time = unixTime();
         auto dt = TimeConversion::unixSecondsToDateTime(
-            time.seconds - Timezone::getGlobalTimezone().utcOffsetSecs());
+            time.seconds + Timezone::getGlobalTimezone().utcOffsetSecs());
         dt.microsec = time.milliseconds * 1000;
         return dt;
     }
@@ -150,7 +150,7 @@ public:
         if (unixTime == -1) {
             return Status::Error("Get unix time failed: %s.", std::strerror(errno));
         }
-        return TimeConversion::unixSecondsToDate(unixTime -
+        return TimeConversion::unixSecondsToDate(unixTime +
                                                  Timezone::getGlobalTimezone().utcOffsetSecs());
     }
 
@@ -208,7 +208,7 @@ public:
 
     static Time localTime() {
         auto time = unixTime();
-        auto t = TimeConversion::unixSecondsToTime(time.seconds -
+        auto t = TimeConversion::unixSecondsToTime(time.seconds +
                                                    Timezone::getGlobalTimezone().utcOffsetSecs());
         t.microsec = time.milliseconds * 1000;
         return t;
-- 
2.43.0


From 8722f5665bb353571549808e2b48e26298f5d28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 51/68] fix: GenericWorker keeps the exception a task throws

---
 src/common/thread/GenericWorker.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/common/thread/GenericWorker.h b/src/common/thread/GenericWorker.h
index 26c7a9e..b9728d5 100644
--- a/src/common/thread/GenericWorker.h
+++ b/src/common/thread/GenericWorker.h
@@ -7,6 +7,7 @@
 #define COMMON_THREAD_GENERICWORKER_H_
 
 #include "common/base/Base.h"
+#include <folly/ExceptionWrapper.h>
 #include <folly/futures/Future.h>
 #include <folly/Unit.h>
 #include "common/cpp/helpers.h"
@@ -190,8 +191,8 @@ auto GenericWorker::addTask(F &&f, Args &&...args)
             try {
                 (*task)();
                 promise->setValue(folly::unit);
-            } catch (const std::exception& ex) {
-                promise->setException(ex);
+            } catch (...) {
+                promise->setException(folly::exception_wrapper(std::current_exception()));
             }
         });
     }
@@ -235,8 +236,8 @@ auto GenericWorker::addDelayTask(size_t ms, F &&f, Args &&...args)
         try {
             (*task)();
             promise->setValue(folly::unit);
-        } catch (const std::exception& ex) {
-            promise->setException(ex);
+        } catch (...) {
+            promise->setException(folly::exception_wrapper(std::current_exception()));
         }
     });
     return future;
-- 
2.43.0


From e6fc06ca4b4d3f3f50f3436972f6fc5d9c386ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 52/68] fix: GenericWorker frees its timers before their event
 base

---
 src/common/thread/GenericWorker.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/thread/GenericWorker.cpp b/src/common/thread/GenericWorker.cpp
index d81a20e..be7daa4 100644
--- a/src/common/thread/GenericWorker.cpp
+++ b/src/common/thread/GenericWorker.cpp
@@ -17,6 +17,8 @@ GenericWorker::GenericWorker() = default;
 GenericWorker::~GenericWorker() {
     stop();
     wait();
+    // The events of the timers have to be freed before their event base
+    activeTimers_.clear();
     if (notifier_ != nullptr) {
         event_free(notifier_);
         notifier_ = nullptr;
-- 
2.43.0


From a2ab5512390f0567a8d20dc73a4e916d26024cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:15 +0000
Subject: [PATCH 53/68] fix: GenericWorker keeps a purge that comes right after
 its timer

---
 src/common/thread/GenericWorker.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/common/thread/GenericWorker.cpp b/src/common/thread/GenericWorker.cpp
index be7daa4..aa2b20a 100644
--- a/src/common/thread/GenericWorker.cpp
+++ b/src/common/thread/GenericWorker.cpp
@@ -118,9 +118,13 @@ void GenericWorker::onNotify() {
     }
     {
         decltype(pendingTimers_) newcomings;
+        decltype(purgingingTimers_) purgings;
         {
+            // Take the both together, otherwise a timer added and purged in between
+            // would be purged before it gets activated
             std::lock_guard<std::mutex> guard(lock_);
             newcomings.swap(pendingTimers_);
+            purgings.swap(purgingingTimers_);
         }
         auto cb = [] (int fd, int16_t, void *arg) {
             UNUSED(fd);
@@ -143,14 +147,7 @@ void GenericWorker::onNotify() {
             auto id = timer->id_;
             activeTimers_[id] = std::move(timer);
         }
-    }
-    {
-        decltype(purgingingTimers_) newcomings;
-        {
-            std::lock_guard<std::mutex> guard(lock_);
-            newcomings.swap(purgingingTimers_);
-        }
-        for (auto id : newcomings) {
+        for (auto id : purgings) {
             purgeTimerInternal(id);
         }
     }
-- 
2.43.0


From 8e0292617c24c40dbcf32e4971c078084b09c405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:46 +0000
Subject: [PATCH 54/68] fix: loading the meta data went on when the hosts could
 not be listed

---
 src/common/clients/meta/MetaClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 0298977..2f3c797 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -261,7 +261,7 @@ bool MetaClient::loadData() {
     }
 
     auto hostsRet = listHosts().get();
-    if (!ret.ok()) {
+    if (!hostsRet.ok()) {
         LOG(ERROR) << "List hosts failed, status:" << hostsRet.status();
         return false;
     }
-- 
2.43.0


From 9121d8efad96b46c6c3e8af8833b91f978bf2b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:46 +0000
Subject: [PATCH 55/68] fix: the leaders of spaces new in this load were lost

---
 src/common/clients/meta/MetaClient.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 2f3c797..8c70441 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -273,8 +273,6 @@ bool MetaClient::loadData() {
             return *hostItem.hostAddr_ref();
         });
 
-    loadLeader(hostItems, spaceIndexByName_);
-
     decltype(localCache_) oldCache;
     {
         folly::RWSpinLock::WriteHolder holder(localCacheLock_);
@@ -291,6 +289,9 @@ bool MetaClient::loadData() {
         storageHosts_           = std::move(hosts);
     }
 
+    // The leaders are told by the names of the spaces just loaded
+    loadLeader(hostItems, spaceIndexByName_);
+
     diff(oldCache, localCache_);
     listenerDiff(oldCache, localCache_);
     loadRemoteListeners();
-- 
2.43.0


From b1725f15c517555b4664e4f1117fb9f172f2a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:46 +0000
Subject: [PATCH 56/68] fix: connections to hosts given by name were never used
 again

---
 src/common/thrift/ThriftClientManager.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/thrift/ThriftClientManager.inl b/src/common/thrift/ThriftClientManager.inl
index bcbb2e4..97d0c31 100644
--- a/src/common/thrift/ThriftClientManager.inl
+++ b/src/common/thrift/ThriftClientManager.inl
@@ -83,7 +83,7 @@ std::shared_ptr<ClientType> ThriftClientManager<ClientType>::client(
     std::shared_ptr<ClientType> client(
         new ClientType(std::move(headerClientChannel)),
         [evb](auto* p) { evb->runImmediatelyOrRunInEventBaseThreadAndWait([p] { delete p; }); });
-    clientMap_->emplace(std::make_pair(resolved, evb), client);
+    clientMap_->emplace(std::make_pair(host, evb), client);
     return client;
 }
 
-- 
2.43.0


From a2e19a212b3ead9e68df8c61d323a9780323f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:46 +0000
Subject: [PATCH 57/68] fix: InternalStorageClient told of a missing part when
 the space is missing

---
 src/common/clients/storage/InternalStorageClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/clients/storage/InternalStorageClient.cpp b/src/common/clients/storage/InternalStorageClient.cpp
index bf5f2aa..5117bb2 100644
--- a/src/common/clients/storage/InternalStorageClient.cpp
+++ b/src/common/clients/storage/InternalStorageClient.cpp
@@ -114,7 +114,7 @@ void InternalStorageClient::getValueImpl(GraphSpaceID spaceId,
     std::pair<HostAddr, cpp2::GetValueRequest> req;
     auto stLeaderHost = getFuzzyLeader(spaceId, partId);
     if (!stLeaderHost.ok()) {
-        if (stLeaderHost.status().toString().find("partid")) {
+        if (stLeaderHost.status().toString().find("partid") != std::string::npos) {
             p.setValue(nebula::cpp2::ErrorCode::E_PART_NOT_FOUND);
         } else {
             p.setValue(nebula::cpp2::ErrorCode::E_SPACE_NOT_FOUND);
-- 
2.43.0


From c1b3cec5a13e36d61d24810f1ae97096df5ff79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:46 +0000
Subject: [PATCH 58/68] fix: InternalStorageClient::getValue took the space's
 id for its number of parts

---
 src/common/clients/storage/InternalStorageClient.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/clients/storage/InternalStorageClient.cpp b/src/common/clients/storage/InternalStorageClient.cpp
index 5117bb2..802bc2b 100644
--- a/src/common/clients/storage/InternalStorageClient.cpp
+++ b/src/common/clients/storage/InternalStorageClient.cpp
@@ -99,9 +99,14 @@ folly::SemiFuture<ErrOrVal> InternalStorageClient::getValue(size_t vIdLen,
                                                             folly::StringPiece key,
                                                             folly::EventBase* evb) {
     auto srcVid = key.subpiece(sizeof(PartitionID), vIdLen);
-    auto partId = metaClient_->partId(spaceId, srcVid.str());
-
     auto c = folly::makePromiseContract<ErrOrVal>();
+    auto numParts = metaClient_->partsNum(spaceId);
+    if (!numParts.ok()) {
+        c.first.setValue(nebula::cpp2::ErrorCode::E_SPACE_NOT_FOUND);
+        return std::move(c.second);
+    }
+    auto partId = metaClient_->partId(numParts.value(), srcVid.str());
+
     getValueImpl(spaceId, partId, key.str(), std::move(c.first), evb);
     return std::move(c.second);
 }
-- 
2.43.0


From 1a51eb5c30c95e85c0a3c052a8238dc55a3427df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:32 +0000
Subject: [PATCH 59/68] fix: take over the names of indexes with the rest of a
 load, not when it fails

---
 src/common/clients/meta/MetaClient.cpp | 38 ++++++++++++++++++--------
 src/common/clients/meta/MetaClient.h   |  5 +++-
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 8c70441..e7152b8 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -203,6 +203,8 @@ bool MetaClient::loadData() {
     decltype(spaceEdgeIndexByType_)     spaceEdgeIndexByType;
     decltype(spaceTagIndexById_)        spaceTagIndexById;
     decltype(spaceAllEdgeMap_)          spaceAllEdgeMap;
+    decltype(tagNameIndexMap_)          tagNameIndexMap;
+    decltype(edgeNameIndexMap_)         edgeNameIndexMap;
 
     for (auto space : ret.value()) {
         auto spaceId = space.first;
@@ -237,7 +239,7 @@ bool MetaClient::loadData() {
             return false;
         }
 
-        if (!loadIndexes(spaceId, spaceCache)) {
+        if (!loadIndexes(spaceId, spaceCache, tagNameIndexMap, edgeNameIndexMap)) {
             LOG(ERROR) << "Load Indexes Failed";
             return false;
         }
@@ -286,6 +288,8 @@ bool MetaClient::loadData() {
         spaceEdgeIndexByType_   = std::move(spaceEdgeIndexByType);
         spaceTagIndexById_      = std::move(spaceTagIndexById);
         spaceAllEdgeMap_        = std::move(spaceAllEdgeMap);
+        tagNameIndexMap_        = std::move(tagNameIndexMap);
+        edgeNameIndexMap_       = std::move(edgeNameIndexMap);
         storageHosts_           = std::move(hosts);
     }
 
@@ -436,7 +440,9 @@ bool MetaClient::loadSchemas(GraphSpaceID spaceId,
 
 
 bool MetaClient::loadIndexes(GraphSpaceID spaceId,
-                             std::shared_ptr<SpaceInfoCache> cache) {
+                             std::shared_ptr<SpaceInfoCache> cache,
+                             NameIndexMap& tagNameIndexMap,
+                             NameIndexMap& edgeNameIndexMap) {
     auto tagIndexesRet = listTagIndexes(spaceId).get();
     if (!tagIndexesRet.ok()) {
         LOG(ERROR) << "Get tag indexes failed for spaceId " << spaceId
@@ -456,7 +462,7 @@ bool MetaClient::loadIndexes(GraphSpaceID spaceId,
         auto indexName = tagIndex.get_index_name();
         auto indexID = tagIndex.get_index_id();
         std::pair<GraphSpaceID, std::string> pair(spaceId, indexName);
-        tagNameIndexMap_[pair] = indexID;
+        tagNameIndexMap[pair] = indexID;
         auto tagIndexPtr = std::make_shared<cpp2::IndexItem>(tagIndex);
         tagIndexes.emplace(indexID, tagIndexPtr);
     }
@@ -467,7 +473,7 @@ bool MetaClient::loadIndexes(GraphSpaceID spaceId,
         auto indexName = edgeIndex.get_index_name();
         auto indexID = edgeIndex.get_index_id();
         std::pair<GraphSpaceID, std::string> pair(spaceId, indexName);
-        edgeNameIndexMap_[pair] = indexID;
+        edgeNameIndexMap[pair] = indexID;
         auto edgeIndexPtr = std::make_shared<cpp2::IndexItem>(edgeIndex);
         edgeIndexes.emplace(indexID, edgeIndexPtr);
     }
@@ -2159,11 +2165,15 @@ MetaClient::getTagIndexByNameFromCache(const GraphSpaceID space, const std::stri
         return Status::Error("Not ready!");
     }
     std::pair<GraphSpaceID, std::string> key(space, name);
-    auto iter = tagNameIndexMap_.find(key);
-    if (iter == tagNameIndexMap_.end()) {
-        return Status::IndexNotFound();
+    IndexID indexID;
+    {
+        folly::RWSpinLock::ReadHolder holder(localCacheLock_);
+        auto iter = tagNameIndexMap_.find(key);
+        if (iter == tagNameIndexMap_.end()) {
+            return Status::IndexNotFound();
+        }
+        indexID = iter->second;
     }
-    auto indexID = iter->second;
     auto itemStatus = getTagIndexFromCache(space, indexID);
     if (!itemStatus.ok()) {
         return itemStatus.status();
@@ -2178,11 +2188,15 @@ MetaClient::getEdgeIndexByNameFromCache(const GraphSpaceID space, const std::str
         return Status::Error("Not ready!");
     }
     std::pair<GraphSpaceID, std::string> key(space, name);
-    auto iter = edgeNameIndexMap_.find(key);
-    if (iter == edgeNameIndexMap_.end()) {
-        return Status::IndexNotFound();
+    IndexID indexID;
+    {
+        folly::RWSpinLock::ReadHolder holder(localCacheLock_);
+        auto iter = edgeNameIndexMap_.find(key);
+        if (iter == edgeNameIndexMap_.end()) {
+            return Status::IndexNotFound();
+        }
+        indexID = iter->second;
     }
-    auto indexID = iter->second;
     auto itemStatus = getEdgeIndexFromCache(space, indexID);
     if (!itemStatus.ok()) {
         return itemStatus.status();
diff --git a/src/common/clients/meta/MetaClient.h b/src/common/clients/meta/MetaClient.h
index e52e670..ec55f40 100644
--- a/src/common/clients/meta/MetaClient.h
+++ b/src/common/clients/meta/MetaClient.h
@@ -663,7 +663,10 @@ protected:
 
     bool loadUsersAndRoles();
 
-    bool loadIndexes(GraphSpaceID spaceId, std::shared_ptr<SpaceInfoCache> cache);
+    bool loadIndexes(GraphSpaceID spaceId,
+                     std::shared_ptr<SpaceInfoCache> cache,
+                     NameIndexMap& tagNameIndexMap,
+                     NameIndexMap& edgeNameIndexMap);
 
     bool loadListeners(GraphSpaceID spaceId, std::shared_ptr<SpaceInfoCache> cache);
 
-- 
2.43.0


From f7140b0785078f49901ca0520d0cf87482b400de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:32 +0000
Subject: [PATCH 60/68] fix: an unknown fulltext index is not found, and asking
 for it does not create it

---
 src/common/clients/meta/MetaClient.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index e7152b8..c79d35c 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -3661,11 +3661,11 @@ MetaClient::getFTIndexByNameFromCache(GraphSpaceID spaceId, const std::string& n
         return Status::Error("Not ready!");
     }
     folly::RWSpinLock::ReadHolder holder(localCacheLock_);
-    if (fulltextIndexMap_.find(name) != fulltextIndexMap_.end() &&
-        fulltextIndexMap_[name].get_space_id() != spaceId) {
+    auto it = fulltextIndexMap_.find(name);
+    if (it == fulltextIndexMap_.end() || it->second.get_space_id() != spaceId) {
         return Status::IndexNotFound();
     }
-    return fulltextIndexMap_[name];
+    return it->second;
 }
 
 folly::Future<StatusOr<cpp2::CreateSessionResp>>
-- 
2.43.0


From 395041446fa5a478c9c5dfb85922235cee77a72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:32 +0000
Subject: [PATCH 61/68] fix: read the fulltext clients under the lock

---
 src/common/clients/meta/MetaClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index c79d35c..8f1dd7f 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -3557,6 +3557,7 @@ StatusOr<std::vector<cpp2::FTClient>> MetaClient::getFTClientsFromCache() {
     if (!ready_) {
         return Status::Error("Not ready!");
     }
+    folly::RWSpinLock::ReadHolder holder(localCacheLock_);
     return fulltextClientList_;
 }
 
-- 
2.43.0


From 176ae94c429eb8893565387ff5d34811fd8a9fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:32 +0000
Subject: [PATCH 62/68] fix: keep the default values of a schema as long as the
 schema

---
 src/common/clients/meta/MetaClient.cpp | 13 ++++++++++---
 src/common/clients/meta/MetaClient.h   |  2 +-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 8f1dd7f..653f8e3 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -334,6 +334,13 @@ bool MetaClient::loadSchemas(GraphSpaceID spaceId,
     EdgeSchemas edgeSchemas;
     TagID lastTagId = -1;
 
+    // A schema refers to default values in the pool and may outlive the cache of the space
+    auto makeSchema = [&spaceInfoCache](SchemaVer ver) {
+        auto pool = spaceInfoCache->pool_;
+        return std::shared_ptr<NebulaSchemaProvider>(
+            new NebulaSchemaProvider(ver), [pool](NebulaSchemaProvider* p) { delete p; });
+    };
+
     auto addSchemaField = [&spaceInfoCache](NebulaSchemaProvider* schema,
                                             const cpp2::ColumnDef& col) {
         bool hasDef = col.default_value_ref().has_value();
@@ -344,7 +351,7 @@ bool MetaClient::loadSchemas(GraphSpaceID spaceId,
         if (hasDef) {
             auto encoded = *col.get_default_value();
             defaultValueExpr = Expression::decode(
-                &(spaceInfoCache->pool_), folly::StringPiece(encoded.data(), encoded.size()));
+                spaceInfoCache->pool_.get(), folly::StringPiece(encoded.data(), encoded.size()));
 
             if (defaultValueExpr == nullptr) {
                 LOG(ERROR) << "Wrong expr default value for column name: " << col.get_name();
@@ -361,7 +368,7 @@ bool MetaClient::loadSchemas(GraphSpaceID spaceId,
 
     for (auto& tagIt : tagItemVec) {
         // meta will return the different version from new to old
-        auto schema = std::make_shared<NebulaSchemaProvider>(tagIt.get_version());
+        auto schema = makeSchema(tagIt.get_version());
         for (const auto& colIt : tagIt.get_schema().get_columns()) {
             addSchemaField(schema.get(), colIt);
         }
@@ -395,7 +402,7 @@ bool MetaClient::loadSchemas(GraphSpaceID spaceId,
     EdgeType lastEdgeType = -1;
     for (auto& edgeIt : edgeItemVec) {
         // meta will return the different version from new to old
-        auto schema = std::make_shared<NebulaSchemaProvider>(edgeIt.get_version());
+        auto schema = makeSchema(edgeIt.get_version());
         for (const auto& col : edgeIt.get_schema().get_columns()) {
             addSchemaField(schema.get(), col);
         }
diff --git a/src/common/clients/meta/MetaClient.h b/src/common/clients/meta/MetaClient.h
index ec55f40..6692110 100644
--- a/src/common/clients/meta/MetaClient.h
+++ b/src/common/clients/meta/MetaClient.h
@@ -67,7 +67,7 @@ struct SpaceInfoCache {
     Indexes edgeIndexes_;
     Listeners listeners_;
     // objPool used to decode when adding field
-    ObjectPool pool_;
+    std::shared_ptr<ObjectPool> pool_ = std::make_shared<ObjectPool>();
     std::unordered_map<PartitionID, TermID> termOfPartition_;
 };
 
-- 
2.43.0


From e4e0f0dc6e8212482f3e060f8128fbe6669459f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:32 +0000
Subject: [PATCH 63/68] fix: tell the remote listeners at the first load, too

---
 src/common/clients/meta/MetaClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 653f8e3..d86a91a 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -295,11 +295,11 @@ bool MetaClient::loadData() {
 
     // The leaders are told by the names of the spaces just loaded
     loadLeader(hostItems, spaceIndexByName_);
+    ready_ = true;
 
     diff(oldCache, localCache_);
     listenerDiff(oldCache, localCache_);
     loadRemoteListeners();
-    ready_ = true;
     return true;
 }
 
-- 
2.43.0


From 627454b316d34b9fca8415aa6c1ade95c0eada61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:32 +0000
Subject: [PATCH 64/68] fix: tell of listeners removed before those added, so
 that one with new peers stays

---
 src/common/clients/meta/MetaClient.cpp | 78 +++++++++++++-------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index d86a91a..6bbfabb 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -927,91 +927,91 @@ void MetaClient::listenerDiff(const LocalCache& oldCache, const LocalCache& newC
         return;
     }
 
-    VLOG(1) << "Let's check if any listeners parts added for " << options_.localHost_;
-    for (auto& spaceEntry : newMap) {
+    VLOG(1) << "Let's check if any old listeners removed....";
+    for (auto& spaceEntry : oldMap) {
         auto spaceId = spaceEntry.first;
-        auto oldSpaceIter = oldMap.find(spaceId);
-        if (oldSpaceIter == oldMap.end()) {
-            // new space is added
-            VLOG(1) << "[Listener] SpaceId " << spaceId << " was added!";
-            listener_->onSpaceAdded(spaceId, true);
+        auto newSpaceIter = newMap.find(spaceId);
+        if (newSpaceIter == newMap.end()) {
+            // remove old space
             for (const auto& partEntry : spaceEntry.second) {
                 auto partId = partEntry.first;
                 for (const auto& info : partEntry.second) {
-                    VLOG(1) << "[Listener] SpaceId " << spaceId << ", partId " << partId
-                            << " was added!";
-                    listener_->onListenerAdded(spaceId, partId, info);
+                    VLOG(1) << "SpaceId " << spaceId << ", partId " << partId << " was removed!";
+                    listener_->onListenerRemoved(spaceId, partId, info.type_);
                 }
             }
+            listener_->onSpaceRemoved(spaceId, true);
+            VLOG(1) << "[Listener] SpaceId " << spaceId << " was removed!";
         } else {
-            // check if new part listener is added
+            // check if part listener is removed
             for (auto& partEntry : spaceEntry.second) {
                 auto partId = partEntry.first;
-                auto oldPartIter = oldSpaceIter->second.find(partId);
-                if (oldPartIter == oldSpaceIter->second.end()) {
+                auto newPartIter = newSpaceIter->second.find(partId);
+                if (newPartIter == newSpaceIter->second.end()) {
                     for (const auto& info : partEntry.second) {
                         VLOG(1) << "[Listener] SpaceId " << spaceId << ", partId " << partId
-                                << " was added!";
-                        listener_->onListenerAdded(spaceId, partId, info);
+                                << " was removed!";
+                        listener_->onListenerRemoved(spaceId, partId, info.type_);
                     }
                 } else {
                     std::sort(partEntry.second.begin(), partEntry.second.end());
-                    std::sort(oldPartIter->second.begin(), oldPartIter->second.end());
+                    std::sort(newPartIter->second.begin(), newPartIter->second.end());
                     std::vector<ListenerHosts> diff;
                     std::set_difference(partEntry.second.begin(),
                                         partEntry.second.end(),
-                                        oldPartIter->second.begin(),
-                                        oldPartIter->second.end(),
+                                        newPartIter->second.begin(),
+                                        newPartIter->second.end(),
                                         std::back_inserter(diff));
                     for (const auto& info : diff) {
                         VLOG(1) << "[Listener] SpaceId " << spaceId << ", partId " << partId
-                                << " was added!";
-                        listener_->onListenerAdded(spaceId, partId, info);
+                                << " was removed!";
+                        listener_->onListenerRemoved(spaceId, partId, info.type_);
                     }
                 }
             }
         }
     }
 
-    VLOG(1) << "Let's check if any old listeners removed....";
-    for (auto& spaceEntry : oldMap) {
+    VLOG(1) << "Let's check if any listeners parts added for " << options_.localHost_;
+    for (auto& spaceEntry : newMap) {
         auto spaceId = spaceEntry.first;
-        auto newSpaceIter = newMap.find(spaceId);
-        if (newSpaceIter == newMap.end()) {
-            // remove old space
+        auto oldSpaceIter = oldMap.find(spaceId);
+        if (oldSpaceIter == oldMap.end()) {
+            // new space is added
+            VLOG(1) << "[Listener] SpaceId " << spaceId << " was added!";
+            listener_->onSpaceAdded(spaceId, true);
             for (const auto& partEntry : spaceEntry.second) {
                 auto partId = partEntry.first;
                 for (const auto& info : partEntry.second) {
-                    VLOG(1) << "SpaceId " << spaceId << ", partId " << partId << " was removed!";
-                    listener_->onListenerRemoved(spaceId, partId, info.type_);
+                    VLOG(1) << "[Listener] SpaceId " << spaceId << ", partId " << partId
+                            << " was added!";
+                    listener_->onListenerAdded(spaceId, partId, info);
                 }
             }
-            listener_->onSpaceRemoved(spaceId, true);
-            VLOG(1) << "[Listener] SpaceId " << spaceId << " was removed!";
         } else {
-            // check if part listener is removed
+            // check if new part listener is added
             for (auto& partEntry : spaceEntry.second) {
                 auto partId = partEntry.first;
-                auto newPartIter = newSpaceIter->second.find(partId);
-                if (newPartIter == newSpaceIter->second.end()) {
+                auto oldPartIter = oldSpaceIter->second.find(partId);
+                if (oldPartIter == oldSpaceIter->second.end()) {
                     for (const auto& info : partEntry.second) {
                         VLOG(1) << "[Listener] SpaceId " << spaceId << ", partId " << partId
-                                << " was removed!";
-                        listener_->onListenerRemoved(spaceId, partId, info.type_);
+                                << " was added!";
+                        listener_->onListenerAdded(spaceId, partId, info);
                     }
                 } else {
                     std::sort(partEntry.second.begin(), partEntry.second.end());
-                    std::sort(newPartIter->second.begin(), newPartIter->second.end());
+                    std::sort(oldPartIter->second.begin(), oldPartIter->second.end());
                     std::vector<ListenerHosts> diff;
                     std::set_difference(partEntry.second.begin(),
                                         partEntry.second.end(),
-                                        newPartIter->second.begin(),
-                                        newPartIter->second.end(),
+                                        oldPartIter->second.begin(),
+                                        oldPartIter->second.end(),
                                         std::back_inserter(diff));
                     for (const auto& info : diff) {
                         VLOG(1) << "[Listener] SpaceId " << spaceId << ", partId " << partId
-                                << " was removed!";
-                        listener_->onListenerRemoved(spaceId, partId, info.type_);
+                                << " was added!";
+                        listener_->onListenerAdded(spaceId, partId, info);
                     }
                 }
             }
-- 
2.43.0


From fde0c137344e56a34e68b144f0505ef6a2771a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:36 +0000
Subject: [PATCH 65/68] fix: Configuration takes JSON that is no object for a
 configuration

Fetching from it threw folly::TypeError.
---
 src/common/conf/Configuration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/conf/Configuration.cpp b/src/common/conf/Configuration.cpp
index 42c25e3..c660ee1 100644
--- a/src/common/conf/Configuration.cpp
+++ b/src/common/conf/Configuration.cpp
@@ -70,6 +70,9 @@ Status Configuration::parseFromFile(const std::string &filename) {
 Status Configuration::parseFromString(const std::string &content) {
     try {
         auto json = folly::parseJson(content);
+        if (!json.isObject()) {
+            return Status::Error("Illegal format (not a JSON object)");
+        }
         content_ = std::make_unique<folly::dynamic>(std::move(json));
     } catch (std::exception &e) {
         LOG(ERROR) << e.what();
-- 
2.43.0


From 8c237624ba192226e4f8e64c68df888c107826f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:36 +0000
Subject: [PATCH 66/68] fix: Configuration::parseFromFile crashes on a
 directory or a pipe

The size of a directory is LLONG_MAX on common file systems and that of a
pipe -1; both were taken for the size of a buffer.
---
 src/common/conf/Configuration.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/conf/Configuration.cpp b/src/common/conf/Configuration.cpp
index c660ee1..e5f333a 100644
--- a/src/common/conf/Configuration.cpp
+++ b/src/common/conf/Configuration.cpp
@@ -37,8 +37,13 @@ Status Configuration::parseFromFile(const std::string &filename) {
             status = Status::Error("Unknown error");
             break;
         }
-        // get the file size
-        auto len = ::lseek(fd, 0, SEEK_END);
+        // get the file size, which a directory or a pipe does not have
+        struct stat st;
+        auto len = ::fstat(fd, &st) == 0 && S_ISREG(st.st_mode) ? ::lseek(fd, 0, SEEK_END) : -1;
+        if (len < 0) {
+            status = Status::Error("\"%s\" is not a regular file", filename.c_str());
+            break;
+        }
         if (len == 0) {
             status = Status::Error("File \"%s\"is empty", filename.c_str());
             break;
-- 
2.43.0


From 1c9ca5f986bd3af8e646a7c3669b711284432b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:36 +0000
Subject: [PATCH 67/68] fix: Configuration::parseFromFile takes // and # in a
 string for comments

A value like "http://host" made a valid file unreadable.
---
 src/common/conf/Configuration.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/common/conf/Configuration.cpp b/src/common/conf/Configuration.cpp
index e5f333a..de97f6c 100644
--- a/src/common/conf/Configuration.cpp
+++ b/src/common/conf/Configuration.cpp
@@ -19,6 +19,31 @@ Configuration::Configuration(folly::dynamic content) {
 }
 
 
+// Drop everything from `//' or `#' to the end of the line, except inside of a string
+static std::string stripComments(const char *text) {
+    std::string result;
+    bool inString = false;
+    for (auto *p = text; *p != '\0'; ++p) {
+        if (inString) {
+            if (*p == '\\' && p[1] != '\0') {
+                result += *p++;     // whatever is escaped does not end the string
+            } else if (*p == '"') {
+                inString = false;
+            }
+        } else if (*p == '#' || (*p == '/' && p[1] == '/')) {
+            p += ::strcspn(p, "\r\n");
+            if (*p == '\0') {
+                break;
+            }
+        } else if (*p == '"') {
+            inString = true;
+        }
+        result += *p;
+    }
+    return result;
+}
+
+
 Status Configuration::parseFromFile(const std::string &filename) {
     auto fd = ::open(filename.c_str(), O_RDONLY);
     auto status = Status::OK();
@@ -56,8 +81,7 @@ Status Configuration::parseFromFile(const std::string &filename) {
         UNUSED(charsRead);
         buffer[len] = '\0';
         // strip off all comments
-        static const std::regex comment("//.*|#.*");
-        content = std::regex_replace(buffer.get(), comment, "");
+        content = stripComments(buffer.get());
     } while (false);
 
     if (fd != -1) {
-- 
2.43.0


From e26aef0bd0784887c8b064bd0fe1a0f3d2f282c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:50 +0000
Subject: [PATCH 68/68] fix: values of map settings were quoted twice in the
 flag's text and once more for the listener

---
 src/common/clients/meta/MetaClient.cpp |  4 +++-
 src/common/meta/GflagsManager.cpp      | 19 +++++++------------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 6bbfabb..0e96c2a 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -3193,7 +3193,9 @@ void MetaClient::updateGflagsValue(const cpp2::ConfigItem& item) {
 void MetaClient::updateNestedGflags(const std::unordered_map<std::string, Value> &nameValues) {
     std::unordered_map<std::string, std::string> optionMap;
     for (const auto &value : nameValues) {
-        optionMap.emplace(value.first, value.second.toString());
+        // the text itself, toString() would quote it
+        optionMap.emplace(value.first,
+                          value.second.isStr() ? value.second.getStr() : value.second.toString());
     }
 
     folly::RWSpinLock::ReadHolder holder(localCacheLock_);
diff --git a/src/common/meta/GflagsManager.cpp b/src/common/meta/GflagsManager.cpp
index 5edd230..33b24ef 100644
--- a/src/common/meta/GflagsManager.cpp
+++ b/src/common/meta/GflagsManager.cpp
@@ -175,18 +175,13 @@ std::string GflagsManager::ValueToGflagString(const Value &val) {
             return val.getStr();
         }
         case Value::Type::MAP: {
-            auto& kvs = val.getMap().kvs;
-            std::vector<std::string> values(kvs.size());
-            std::transform(kvs.begin(), kvs.end(), values.begin(),
-                    [](const auto &iter) -> std::string {
-                        std::stringstream out;
-                        out << "\"" << iter.first << "\"" << ":" << "\"" << iter.second << "\"";
-                        return out.str();
-                    });
-
-            std::stringstream os;
-            os << "{" << folly::join(",", values) << "}";
-            return os.str();
+            // JSON, which gflagsValueToValue reads back
+            folly::dynamic object = folly::dynamic::object();
+            for (const auto& kv : val.getMap().kvs) {
+                object.insert(kv.first,
+                              kv.second.isStr() ? kv.second.getStr() : kv.second.toString());
+            }
+            return folly::toJson(object);
         }
         default: {
             LOG(FATAL) << "Unsupported type for gflags";
-- 
2.43.0

