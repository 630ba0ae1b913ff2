From 1e7d53c019f4a4fb15d1e063966f00147cdffdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:45 +0000
Subject: [PATCH 01/44] fix: keep the invalid mark of a variable length channel
 value

Storing the signal data index reset the invalidation bit that was just set.
---
 mdflib/src/cn4block.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index c5d2345..98828eb 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -826,7 +826,7 @@ void Cn4Block::SetTextValue(const std::string &value, bool valid) {
     if (bit_count_ == 0) {
       SetValid(false,0);
     } else {
-      SetUnsignedValueLe(index, true,0);
+      SetUnsignedValueLe(index, valid,0);
     }
   } else {
     // Fixed length handle by interface class
@@ -855,7 +855,7 @@ void Cn4Block::SetByteArray(const std::vector<uint8_t> &value, bool valid) {
     if (bit_count_ == 0) {
       SetValid(false,0);
     } else {
-      SetUnsignedValueLe(index, true,0);
+      SetUnsignedValueLe(index, valid,0);
     }
   } else {
     // Fixed length handle by interface class
-- 
2.43.0


From 9fb51e6f499a15383421359f936c148b41a556f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:45 +0000
Subject: [PATCH 02/44] fix: do not use a sample record after it was removed
 from the queue

---
 mdflib/src/samplequeue.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mdflib/src/samplequeue.cpp b/mdflib/src/samplequeue.cpp
index 867db6f..f4d502c 100644
--- a/mdflib/src/samplequeue.cpp
+++ b/mdflib/src/samplequeue.cpp
@@ -44,10 +44,8 @@ SampleRecord SampleQueue::GetSample() {
 }
 
 void SampleQueue::PopSample() {
-  const SampleRecord& record = queue_.front();
+  size_ -= queue_.front().SampleSize();
   queue_.pop_front();
-  size_ -= record.SampleSize();
-
 }
 void SampleQueue::Reset() {
   queue_.clear();
-- 
2.43.0


From d6e9e8632683c8e2c6eb6c3e5cdfa50319af28b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:45 +0000
Subject: [PATCH 03/44] fix: enter the measurement state after the queued
 samples got their relative time

A background pass between the state change and the recalculation stored
samples with a master time that was not relative to the start time.
---
 mdflib/src/mdfwriter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/mdfwriter.cpp b/mdflib/src/mdfwriter.cpp
index affbad4..7b5c945 100644
--- a/mdflib/src/mdfwriter.cpp
+++ b/mdflib/src/mdfwriter.cpp
@@ -277,7 +277,6 @@ bool MdfWriter::InitMeasurement() {
 }
 
 void MdfWriter::StartMeasurement(uint64_t start_time) {
-  write_state_ = WriteState::StartMeas;
   start_time_ = start_time;
   stop_time_ = 0;  // Zero indicate not stopped
 
@@ -285,6 +284,9 @@ void MdfWriter::StartMeasurement(uint64_t start_time) {
   // times to relative times by using the start_time_.
   RecalculateTimeMaster();
 
+  // The samples are relative the start time now, so the work thread may
+  // start to save them.
+  write_state_ = WriteState::StartMeas;
   NotifySample();
 
   // Set the time in the header if this is the first DG block in the file.
@@ -298,7 +300,6 @@ void MdfWriter::StartMeasurement(uint64_t start_time) {
 }
 
 void MdfWriter::StartMeasurement(ITimestamp &start_time) {
-  write_state_ = WriteState::StartMeas;
   start_time_ = start_time.GetUtcTimeNs();
   stop_time_ = 0;  // Zero indicate not stopped
                    
@@ -306,6 +307,9 @@ void MdfWriter::StartMeasurement(ITimestamp &start_time) {
   // times to relative times by using the start_time_.
   RecalculateTimeMaster();
 
+  // The samples are relative the start time now, so the work thread may
+  // start to save them.
+  write_state_ = WriteState::StartMeas;
   NotifySample();
 
   // Set the time in the header if this is the first DG block in the file.
-- 
2.43.0


From 667966ae054596e602cf7bcc5d359c4ae5cfd214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:45 +0000
Subject: [PATCH 04/44] fix: keep the pre-trigger window when it is longer than
 the start time

---
 mdflib/src/samplequeue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/samplequeue.cpp b/mdflib/src/samplequeue.cpp
index f4d502c..17df614 100644
--- a/mdflib/src/samplequeue.cpp
+++ b/mdflib/src/samplequeue.cpp
@@ -69,7 +69,7 @@ void SampleQueue::TrimQueue() {
     const auto last_time = queue_.back().timestamp;
     if (start_time > 0) {
       // Measurement started
-      if (next_time >= start_time - pre_trig_time) {
+      if (next_time + pre_trig_time >= start_time) {
         break;
       }
     } else {
-- 
2.43.0


From b0fd6e2f75ae858e76d7cd51ebd70a53a737044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:22 +0000
Subject: [PATCH 05/44] fix: write MDF 3 conversion parameters as 8 byte
 floating point values

The parameter list holds variants, and the variant object itself was written.
---
 mdflib/src/cc3block.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/cc3block.cpp b/mdflib/src/cc3block.cpp
index a538954..556cfbb 100644
--- a/mdflib/src/cc3block.cpp
+++ b/mdflib/src/cc3block.cpp
@@ -313,8 +313,9 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 9:  // Rational
       nof_values_ = static_cast<uint16_t>(value_list_.size());
       bytes += WriteNumber(buffer, nof_values_);
-      for (auto par : value_list_) {
-        bytes += WriteNumber(buffer, par);
+      for (uint16_t par = 0; par < static_cast<uint16_t>(value_list_.size());
+           ++par) {
+        bytes += WriteNumber(buffer, Parameter(par));
       }
       break;
 
@@ -322,8 +323,9 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 2:  // Tabular
       nof_values_ = static_cast<uint16_t>(value_list_.size() / 2);
       bytes += WriteNumber(buffer, nof_values_);
-      for (auto par : value_list_) {
-        bytes += WriteNumber(buffer, par);
+      for (uint16_t par = 0; par < static_cast<uint16_t>(value_list_.size());
+           ++par) {
+        bytes += WriteNumber(buffer, Parameter(par));
       }
       break;
 
-- 
2.43.0


From 3d4fe20d9ad93674d44982320be63f01654fb107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:13 +0000
Subject: [PATCH 06/44] fix: do not reopen data groups of earlier measurements
 when appending

A data group with samples in only some of its channel groups was made active
again. Its data block is not last in the file, so the next measurement
corrupted it or ended the process.
---
 mdflib/src/writecache.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/writecache.cpp b/mdflib/src/writecache.cpp
index efe4b8b..b97feec 100644
--- a/mdflib/src/writecache.cpp
+++ b/mdflib/src/writecache.cpp
@@ -5,6 +5,7 @@
 
 #include "writecache.h"
 
+#include <algorithm>
 #include <chrono>
 
 #include "mdf/mdflogstream.h"
@@ -43,10 +44,18 @@ void WriteCache::Init() {
     if (data_group == nullptr) {
       continue;
     }
-    for (IChannelGroup* channel_group : data_group->ChannelGroups()) {
+    const auto group_list = data_group->ChannelGroups();
+    // A data group that already holds samples belongs to an earlier measurement
+    // and shall not be changed.
+    if (std::any_of(group_list.cbegin(), group_list.cend(),
+                    [](const IChannelGroup* group) -> bool {
+                      return group != nullptr && group->NofSamples() > 0;
+                    })) {
+      continue;
+    }
+    for (IChannelGroup* channel_group : group_list) {
       if (channel_group == nullptr ||
-          (channel_group->Flags() & CgFlag::VlsdChannel) != 0 ||
-          channel_group->NofSamples() > 0 ) {
+          (channel_group->Flags() & CgFlag::VlsdChannel) != 0) {
         continue;
       }
 
-- 
2.43.0


From 17602b6d53a5d4ac5a97bc3031572b2834aa489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:13 +0000
Subject: [PATCH 07/44] fix: leave the data block alone when there are no
 samples to save

The block length of an empty data group of an earlier measurement was
extended over the blocks that follow it in the file.
---
 mdflib/src/convertersamplequeue.cpp | 4 ++++
 mdflib/src/samplequeue.cpp          | 2 +-
 mdflib/src/writer4samplequeue.cpp   | 5 +++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/convertersamplequeue.cpp b/mdflib/src/convertersamplequeue.cpp
index 66a3aa9..2696e7d 100644
--- a/mdflib/src/convertersamplequeue.cpp
+++ b/mdflib/src/convertersamplequeue.cpp
@@ -33,6 +33,10 @@ void ConverterSampleQueue::SaveQueue(std::unique_lock<std::mutex>& lock) {
     SaveQueueCompressed(lock);
     return;
   }
+  if (IsEmpty()) {
+    // Nothing to save to the file.
+    return;
+  }
   auto* dg4 = dynamic_cast<Dg4Block*>(&data_group_);
   if (dg4 == nullptr) {
     return;
diff --git a/mdflib/src/samplequeue.cpp b/mdflib/src/samplequeue.cpp
index 17df614..61d3c18 100644
--- a/mdflib/src/samplequeue.cpp
+++ b/mdflib/src/samplequeue.cpp
@@ -97,7 +97,7 @@ void SampleQueue::SaveQueue(std::unique_lock<std::mutex>& lock) {
 
 void SampleQueue::CleanQueue(std::unique_lock<std::mutex>& lock) {
   const auto* dg3 = dynamic_cast<detail::Dg3Block*>(&data_group_);
-  if (dg3 == nullptr ) {
+  if (dg3 == nullptr || IsEmpty()) {
     return;
   }
 
diff --git a/mdflib/src/writer4samplequeue.cpp b/mdflib/src/writer4samplequeue.cpp
index 2f62f54..0776b54 100644
--- a/mdflib/src/writer4samplequeue.cpp
+++ b/mdflib/src/writer4samplequeue.cpp
@@ -39,6 +39,11 @@ void Writer4SampleQueue::SaveQueue(std::unique_lock<std::mutex>& lock) {
     return;
   }
 
+  if (IsEmpty()) {
+    // Nothing to save to the file.
+    return;
+  }
+
   // Save uncompressed data in last DG/DT block
   auto* dg4 = dynamic_cast<Dg4Block*>(&data_group_);
   if (dg4 == nullptr) {
-- 
2.43.0


From 2d3afa528f812188108f2bb4286f89b57b56e005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:13 +0000
Subject: [PATCH 08/44] fix: lock the sample queue again when there is no data
 block to write to

---
 mdflib/src/convertersamplequeue.cpp | 1 +
 mdflib/src/writer4samplequeue.cpp   | 8 +++-----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/mdflib/src/convertersamplequeue.cpp b/mdflib/src/convertersamplequeue.cpp
index 2696e7d..a60da62 100644
--- a/mdflib/src/convertersamplequeue.cpp
+++ b/mdflib/src/convertersamplequeue.cpp
@@ -56,6 +56,7 @@ void ConverterSampleQueue::SaveQueue(std::unique_lock<std::mutex>& lock) {
 
   auto* dt4 = dg4->CreateOrGetDt4(*writer_.file_);
   if (dt4 == nullptr) {
+    lock.lock();
     return;
   }
 
diff --git a/mdflib/src/writer4samplequeue.cpp b/mdflib/src/writer4samplequeue.cpp
index 0776b54..e09995a 100644
--- a/mdflib/src/writer4samplequeue.cpp
+++ b/mdflib/src/writer4samplequeue.cpp
@@ -58,11 +58,9 @@ void Writer4SampleQueue::SaveQueue(std::unique_lock<std::mutex>& lock) {
     return;
   }
   auto* dt4 = dg4->CreateOrGetDt4(*writer_.file_);
-  if (dt4 == nullptr) {
-    return;
-  }
-  const auto data_position = dt4->DataPosition();
-  if (data_position <= 0) {
+  if (dt4 == nullptr || dt4->DataPosition() <= 0) {
+    writer_.Close();
+    lock.lock();
     return;
   }
 
-- 
2.43.0


From 08f1c12e80de426aebea8e150a2f103995c7b540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:32 +0000
Subject: [PATCH 09/44] fix: check the sample buffer size when setting a text
 or byte array value

The numeric setters have the check; without it a value set before the
measurement was initialized was written outside the buffer.
---
 mdflib/src/ichannel.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mdflib/src/ichannel.cpp b/mdflib/src/ichannel.cpp
index 5c055ce..4daa1c7 100644
--- a/mdflib/src/ichannel.cpp
+++ b/mdflib/src/ichannel.cpp
@@ -556,6 +556,10 @@ void IChannel::SetTextValue(const std::string &value, bool valid) {
     SetValid(false,0);
     return;
   }
+  if (ByteOffset() + bytes > buffer.size()) {
+    MDF_ERROR() << "Sample buffer not sized. Invalid use of function.";
+    return; // Invalid use of function
+  }
   // The string shall be null terminated
   memset(buffer.data() + ByteOffset(), '\0', bytes);
   if (value.size() < bytes) {
@@ -573,6 +577,10 @@ void IChannel::SetByteArray(const std::vector<uint8_t> &value, bool valid) {
     SetValid(false, 0);
     return;
   }
+  if (ByteOffset() + bytes > buffer.size()) {
+    MDF_ERROR() << "Sample buffer not sized. Invalid use of function.";
+    return; // Invalid use of function
+  }
   // The string shall be null terminated
   memset(buffer.data() + ByteOffset(), '\0', bytes);
   if (value.size() <= bytes) {
-- 
2.43.0


From a7b34358ee2cd759627f95d012816fdf31a12ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:12 +0000
Subject: [PATCH 10/44] fix: store text values in the character set of the
 channel

---
 include/mdf/ichannel.h  |  2 ++
 mdflib/src/cn4block.cpp |  2 +-
 mdflib/src/ichannel.cpp | 42 ++++++++++++++++++++++++++++++++++++++---
 3 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/include/mdf/ichannel.h b/include/mdf/ichannel.h
index 86b10d7..914d875 100644
--- a/include/mdf/ichannel.h
+++ b/include/mdf/ichannel.h
@@ -616,6 +616,8 @@ class IChannel : public IBlock  {
   void SetFloatValueLe(double value, bool valid, uint64_t array_index);
   /** \brief Support function that sets float big endian values */
   void SetFloatValueBe(double value, bool valid, uint64_t array_index);
+  /** \brief Converts an UTF8 text to the character set of the channel. */
+  [[nodiscard]] std::string EncodeText(const std::string &utf8) const;
   /** \brief Support function that sets text values */
   virtual void SetTextValue(const std::string &value, bool valid);
   /** \brief Support function that sets array values */
diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index 98828eb..b064574 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -812,7 +812,7 @@ void Cn4Block::SetTextValue(const std::string &value, bool valid) {
     // and the string in a temporary data block (data_list_). This block is
     // later stored into an SD/DZ block.
     uint64_t index;
-    VlsdData temp(value);
+    VlsdData temp(EncodeText(value));
     auto itr = data_map_.find(temp);
     if (itr != data_map_.cend()) {
       index = itr->second;
diff --git a/mdflib/src/ichannel.cpp b/mdflib/src/ichannel.cpp
index 4daa1c7..5420cad 100644
--- a/mdflib/src/ichannel.cpp
+++ b/mdflib/src/ichannel.cpp
@@ -548,6 +548,38 @@ void IChannel::SetFloatValueBe(double value, bool valid, uint64_t array_index) {
   }
 }
 
+std::string IChannel::EncodeText(const std::string &utf8) const {
+  const auto data_type = DataType();
+  if (data_type != ChannelDataType::StringAscii &&
+      data_type != ChannelDataType::StringUTF16Le &&
+      data_type != ChannelDataType::StringUTF16Be) {
+    return utf8;
+  }
+  std::wstring wide;
+  try {
+    wide = MdfHelper::Utf8ToUtf16(utf8);
+  } catch (const std::exception &) {
+    return utf8; // Not an UTF8 text
+  }
+  std::string text;
+  for (const wchar_t in_char : wide) {
+    const auto code = static_cast<uint32_t>(in_char);
+    if (data_type == ChannelDataType::StringAscii) {
+      if (code > 0xFF) {
+        return utf8; // Not possible to store as Latin-1
+      }
+      text.push_back(static_cast<char>(code));
+    } else if (data_type == ChannelDataType::StringUTF16Le) {
+      text.push_back(static_cast<char>(code & 0xFF));
+      text.push_back(static_cast<char>((code >> 8) & 0xFF));
+    } else {
+      text.push_back(static_cast<char>((code >> 8) & 0xFF));
+      text.push_back(static_cast<char>(code & 0xFF));
+    }
+  }
+  return text;
+}
+
 void IChannel::SetTextValue(const std::string &value, bool valid) {
   SetValid(valid,0);
   auto &buffer = SampleBuffer();
@@ -562,10 +594,14 @@ void IChannel::SetTextValue(const std::string &value, bool valid) {
   }
   // The string shall be null terminated
   memset(buffer.data() + ByteOffset(), '\0', bytes);
-  if (value.size() < bytes) {
-    memcpy(buffer.data() + ByteOffset(), value.data(), value.size());
+  const std::string text = EncodeText(value);
+  const size_t char_size = DataType() == ChannelDataType::StringUTF16Le ||
+                           DataType() == ChannelDataType::StringUTF16Be ? 2 : 1;
+  if (text.size() + char_size <= bytes) {
+    memcpy(buffer.data() + ByteOffset(), text.data(), text.size());
   } else {
-    memcpy(buffer.data() + ByteOffset(), value.data(), bytes - 1);
+    memcpy(buffer.data() + ByteOffset(), text.data(),
+           (bytes / char_size - 1) * char_size);
   }
 }
 
-- 
2.43.0


From 1ac6a8fb2a4b1e197b865b6cd4b705cc0a16bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:12 +0000
Subject: [PATCH 11/44] fix: check that a big endian unsigned value fits in the
 sample buffer

---
 mdflib/src/ichannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/ichannel.cpp b/mdflib/src/ichannel.cpp
index 5420cad..9b4f930 100644
--- a/mdflib/src/ichannel.cpp
+++ b/mdflib/src/ichannel.cpp
@@ -346,7 +346,7 @@ void IChannel::SetUnsignedValueBe(uint64_t value, bool valid, uint64_t array_ind
   }
   const auto bytes = static_cast<size_t>(DataBytes());
   const auto max_bytes = ByteOffset() +
-                         (bytes * array_index);
+                         (bytes * (array_index + 1));
   if (max_bytes > buffer.size()) {
     SetValid(false, array_index);
     return;
-- 
2.43.0


From 09c76488e35b16e19bfe8bda658f86a4fd6aef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:06 +0000
Subject: [PATCH 12/44] fix: report the values of a channel flagged as all
 invalid as invalid

---
 mdflib/src/cn4block.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index b064574..214bf46 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -1177,8 +1177,8 @@ void Cn4Block::SetValid(bool valid, uint64_t array_index) {
 
 bool Cn4Block::GetValid(const std::vector<uint8_t> &record_buffer,
                         uint64_t array_index) const {
-  bool valid = true;
-  if (Flags() & CnFlag::InvalidValid && cg_block_ != nullptr) {
+  bool valid = (Flags() & CnFlag::AllValuesInvalid) == 0;
+  if (valid && (Flags() & CnFlag::InvalidValid) && cg_block_ != nullptr) {
     const auto invalid_pos = invalid_bit_pos_ + array_index;
     const auto byte_offset = static_cast<size_t>( cg_block_->NofDataBytes() + (invalid_pos / 8) );
     const auto bit_offset = invalid_pos % 8;
-- 
2.43.0


From 5737136806fa3f84229a86e6892a6532a66a4169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:06 +0000
Subject: [PATCH 13/44] fix: an empty data block in a data list ended the
 reading

---
 mdflib/src/readcache.cpp | 54 ++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/mdflib/src/readcache.cpp b/mdflib/src/readcache.cpp
index 27ed376..fa8d4b2 100644
--- a/mdflib/src/readcache.cpp
+++ b/mdflib/src/readcache.cpp
@@ -365,36 +365,36 @@ bool ReadCache::GetNextByte(uint8_t &input) {
     return true;
   }
 
-  if (block_index_ >= block_list_.size()) {
-    return false;
-  }
+  do {
+    if (block_index_ >= block_list_.size()) {
+      return false;
+    }
 
-  auto* current_block = block_list_[block_index_];
-  ++block_index_;
-  if (current_block == nullptr) {
-    return false;
-  }
-  file_index_ = 0;
-  data_size_ = current_block->DataSize();
-  if (current_block->BlockType() == "DZ") {
-    // Need a temp buffer in between
-    try {
-      file_buffer_.resize(static_cast<size_t>(data_size_) );
-    } catch (const std::exception&) {
-       return false;
+    auto* current_block = block_list_[block_index_];
+    ++block_index_;
+    if (current_block == nullptr) {
+      return false;
     }
+    file_index_ = 0;
+    data_size_ = current_block->DataSize();
+    if (current_block->BlockType() == "DZ") {
+      // Need a temp buffer in between
+      try {
+        file_buffer_.resize(static_cast<size_t>(data_size_) );
+      } catch (const std::exception&) {
+         return false;
+      }
+
+      uint64_t temp_index = 0;
+      current_block->CopyDataToBuffer(buffer_,file_buffer_, temp_index);
+    } else {
+      // Read from the file directly
+      SetFilePosition(buffer_, current_block->DataPosition());
+      file_buffer_.clear(); // Indicate that we read from the file directly
+    }
+    // An empty block doesn't end the data, there may be more blocks in the list.
+  } while (file_index_ >= data_size_);
 
-    uint64_t temp_index = 0;
-    current_block->CopyDataToBuffer(buffer_,file_buffer_, temp_index);
-  } else {
-    // Read from the file directly
-    SetFilePosition(buffer_, current_block->DataPosition());
-    file_buffer_.clear(); // Indicate that we read from the file directly
-  }
-    // Read in the data form file to
-  if (file_index_ >= data_size_) {
-    return false;
-  }
   if (file_buffer_.empty()) {
     input = buffer_.sbumpc();
   } else {
-- 
2.43.0


From 9d060f286ed42fd43160fba843960ecd5e2b411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:20 +0000
Subject: [PATCH 14/44] fix: validity of a variable length value when only its
 offset or its own record is read

---
 include/mdf/ichannel.h       |  9 +++++----
 mdflib/src/channelobserver.h | 11 +++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/mdf/ichannel.h b/include/mdf/ichannel.h
index 914d875..10fdb5e 100644
--- a/include/mdf/ichannel.h
+++ b/include/mdf/ichannel.h
@@ -422,6 +422,11 @@ class IChannel : public IBlock  {
    */
   bool GetUnsignedValue(const std::vector<uint8_t> &record_buffer,
                                 uint64_t &dest, uint64_t array_index = 0) const;
+
+  /** \brief Support function that return true if the valid bit is set.*/
+  virtual bool GetValid(const std::vector<uint8_t> &record_buffer,
+                        uint64_t array_index) const;
+
   /** \brief Internally used function mainly for fetching VLSD text values.
     *
     * @param record_buffer The sample record buffer.
@@ -600,10 +605,6 @@ class IChannel : public IBlock  {
   /** \brief Support function that sets the valid flag. */
   virtual void SetValid(bool valid, uint64_t array_index);
 
-  /** \brief Support function that return true if the valid bit is set.*/
-  virtual bool GetValid(const std::vector<uint8_t> &record_buffer,
-                        uint64_t array_index) const;
-
   /** \brief Support function that sets unsigned little endian values */
   void SetUnsignedValueLe(uint64_t value, bool valid, uint64_t array_index);
   /** \brief Support function that sets unsigned big endian values */
diff --git a/mdflib/src/channelobserver.h b/mdflib/src/channelobserver.h
index a84ae7c..d8136bf 100644
--- a/mdflib/src/channelobserver.h
+++ b/mdflib/src/channelobserver.h
@@ -107,7 +107,8 @@ class ChannelObserver : public IChannelObserver {
           // If variable length, the value is an index into an SD block.
           for (uint64_t array_index = 0; array_index < array_size; ++array_index) {
             uint64_t offset = 0; // Offset into SD/CG block
-            valid = channel_.GetUnsignedValue(record, offset, array_index);
+            valid = channel_.GetUnsignedValue(record, offset, array_index) &&
+                    channel_.GetValid(record, array_index);
 
             const auto sample_index = static_cast<size_t>((sample * array_size) + array_index);
             if (sample_index < offset_list_.size()) {
@@ -130,16 +131,14 @@ class ChannelObserver : public IChannelObserver {
           }
         } else if (channel_.VlsdRecordId() > 0 &&
                    record_id == channel_.VlsdRecordId()) {
-          // Add the VLSD offset data to this channel
+          // Add the VLSD offset data to this channel. Note that the invalidation
+          // bit is stored in the record with the offset and not in this record.
           for (uint64_t array_index = 0; array_index < array_size; ++array_index) {
             const auto sample_index = static_cast<size_t>((sample * array_size) + array_index);
-            valid = channel_.GetChannelValue(record, value, array_index);
+            channel_.GetChannelValue(record, value, array_index);
             if (sample_index < value_list_.size()) {
               value_list_[sample_index] = value;
             }
-            if (sample_index < valid_list_.size()) {
-              valid_list_[sample_index] = valid;
-            }
           }
         }
         break;
-- 
2.43.0


From 84d2098cead0ec73da8bf4dc187a0332f4819a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:20 +0000
Subject: [PATCH 15/44] fix: partial read of an MDF 3 group without record id
 or with sample reductions

---
 mdflib/src/dg3block.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mdflib/src/dg3block.cpp b/mdflib/src/dg3block.cpp
index 24f0b2d..8a792f7 100644
--- a/mdflib/src/dg3block.cpp
+++ b/mdflib/src/dg3block.cpp
@@ -195,7 +195,6 @@ void Dg3Block::ReadRangeData(std::streambuf& buffer, DgRange& range) {
   InitFastObserverList();
 
   uint64_t data_size = DataSize();
-  SetFilePosition(buffer, Link(kIndexData));
 
   // Read in all SR block data
   for (const auto& cg3 :Cg3()) {
@@ -208,8 +207,8 @@ void Dg3Block::ReadRangeData(std::streambuf& buffer, DgRange& range) {
     }
   }
 
-  //  auto pos = GetFilePosition(data_file);
-  // Read through all record
+  // Read through all record. Note that the SR data was read above.
+  SetFilePosition(buffer, Link(kIndexData));
   ParseRangeDataRecords(buffer, data_size, range);
 
 
@@ -269,8 +268,7 @@ void Dg3Block::ParseRangeDataRecords(std::streambuf& buffer, uint64_t nof_data_b
       count += ReadNumber(buffer, record_id);
     }
     const auto *cg3 = FindCgRecordId(record_id);
-    const auto* cg_range = range.GetCgRange(record_id);
-    if (cg3 == nullptr || cg_range == nullptr) {
+    if (cg3 == nullptr) {
       break;
     }
 
-- 
2.43.0


From 35d3f6154fd95f56b473bc74a71c8d1649cf9e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:34 +0000
Subject: [PATCH 16/44] fix: direct read of variable length data stored in a
 header list block

---
 mdflib/src/dg4block.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index 68ade13..c5be261 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -483,6 +483,8 @@ void  Dg4Block::ReadVlsdData(std::streambuf& buffer,Cn4Block& channel,
         read_signal_data = true;
       } else if (block->BlockType() == "DL") {
         read_signal_data = true;
+      } else if (block->BlockType() == "HL") {
+        read_signal_data = true;
       }
       break;
 
-- 
2.43.0


From e2bbfa14fc8f1f0dd941f8f025886d8106e96057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:15 +0000
Subject: [PATCH 17/44] fix: sample reductions of MDF 3 files were never read

---
 mdflib/src/cg3block.cpp | 2 +-
 mdflib/src/sr3block.cpp | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/cg3block.cpp b/mdflib/src/cg3block.cpp
index 90dcaac..26bbf2f 100644
--- a/mdflib/src/cg3block.cpp
+++ b/mdflib/src/cg3block.cpp
@@ -100,7 +100,7 @@ uint64_t Cg3Block::Read(std::streambuf& buffer) {
   bytes += ReadNumber(buffer, nof_channels_);
   bytes += ReadNumber(buffer, size_of_data_record_);
   bytes += ReadNumber(buffer, nof_records_);
-  if (bytes + 4 < block_size_) {
+  if (bytes + 4 <= block_size_) {
     uint32_t link = 0;
     bytes += ReadNumber(buffer, link);
     link_list_.emplace_back(link);
diff --git a/mdflib/src/sr3block.cpp b/mdflib/src/sr3block.cpp
index a63c64a..3dfa7bf 100644
--- a/mdflib/src/sr3block.cpp
+++ b/mdflib/src/sr3block.cpp
@@ -78,8 +78,10 @@ uint64_t Sr3Block::Write(std::streambuf& buffer) {
 
 
 void Sr3Block::ReadData(std::streambuf& buffer) const {
-  uint64_t data_size = DataSize();
-  if (data_size == 0) {
+  // The data block of an MDF 3 sample reduction has no header. It holds the mean,
+  // the minimum and the maximum record of each reduced sample.
+  const uint64_t data_size = 3ULL * BlockSize() * nof_reduced_samples_;
+  if (data_size == 0 || Link(kIndexData) <= 0) {
     data_list_.clear();
     return;
   }
-- 
2.43.0


From 02ce174ad4397ee585061c6869abd32a9518db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:17 +0000
Subject: [PATCH 18/44] fix: finalizing an unfinished file counts the complete
 records of all its data blocks

---
 mdflib/src/cg4block.cpp |  11 ++---
 mdflib/src/dg4block.cpp | 105 +++++++++++++++++++++-------------------
 2 files changed, 58 insertions(+), 58 deletions(-)

diff --git a/mdflib/src/cg4block.cpp b/mdflib/src/cg4block.cpp
index d492ff1..c28207d 100644
--- a/mdflib/src/cg4block.cpp
+++ b/mdflib/src/cg4block.cpp
@@ -401,18 +401,13 @@ ISourceInformation *Cg4Block::SourceInformation() const {
 }
 
 void Cg4Block::UpdateCycleCounter(uint64_t nof_samples) {
-  nof_samples_ += nof_samples;
+  nof_samples_ = nof_samples;
 }
 
 void Cg4Block::UpdateVlsdSize(uint64_t nof_data_bytes) {
   if (Flags() & CgFlag::VlsdChannel) {
-    uint64_t vlsd_size = nof_invalid_bytes_;
-    vlsd_size <<= 32;
-    vlsd_size += nof_data_bytes_;
-
-    vlsd_size += nof_data_bytes;
-    nof_data_bytes_ = static_cast<uint32_t>(vlsd_size & 0xFFFFFFFF);
-    nof_invalid_bytes_ = static_cast<uint32_t>(vlsd_size >> 32);
+    nof_data_bytes_ = static_cast<uint32_t>(nof_data_bytes & 0xFFFFFFFF);
+    nof_invalid_bytes_ = static_cast<uint32_t>(nof_data_bytes >> 32);
   }
 }
 
diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index c5be261..b237142 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -687,13 +687,14 @@ void Dg4Block::RecordIdSize(uint8_t id_size) { rec_id_size_ = id_size; }
 uint8_t Dg4Block::RecordIdSize() const { return rec_id_size_; }
 
 bool Dg4Block::FinalizeDtBlocks(std::streambuf& buffer) {
-  auto& block_list = DataBlockList();
+  std::vector<DataBlock*> block_list;
+  GetDataBlockList(block_list);
   if (block_list.empty()) {
     // No data blocks to update
     MDF_DEBUG() << "No last data block to update.";
     return true;
   }
-  auto* last_block = block_list.back().get();
+  auto* last_block = block_list.back();
   if (last_block == nullptr || last_block->BlockType() != "DT") {
     MDF_DEBUG() << "Last data block is not a DT block.";
     return true;
@@ -708,28 +709,17 @@ bool Dg4Block::FinalizeDtBlocks(std::streambuf& buffer) {
   return true;
 }
 
-// Update the unfinished payload data (DT) block. This function updates the
-// channel group (CG) and a CG-VLSD channel group regarding cycle count
-// and offsets (VLSD)
+// Update the channel group (CG) and the CG-VLSD channel group regarding cycle
+// count and sizes (VLSD). All data blocks are scanned as a record may continue
+// in the next data block. Only complete records are counted.
 bool Dg4Block::FinalizeCgAndVlsdBlocks(std::streambuf& buffer, bool update_cg,
                                      bool update_vlsd) {
-  auto& block_list = DataBlockList();
+  std::vector<DataBlock*> block_list;
+  GetDataBlockList(block_list);
   if (block_list.empty()) {
     // No data blocks to update
     MDF_DEBUG() << "No last data block to update.";
     return true;
-  }
-  // It is the last DT block in the list that can be updated. If it isn't a DT
-  // block, we cannot finish the file.
-  auto* last_block = block_list.back().get();
-  if (last_block == nullptr || last_block->BlockType() != "DT") {
-    MDF_DEBUG() << "Last data block is not a DT block.";
-    return true;
-  }
-  auto* dt_block = dynamic_cast<Dt4Block*>(last_block);
-  if (dt_block == nullptr) {
-    MDF_ERROR() << "Invalid DT block type-cast.";
-    return false;
   }
     // Create a simple map that speeds up the counting.
   std::map<uint64_t, CgCounter> counter_list;
@@ -745,42 +735,57 @@ bool Dg4Block::FinalizeCgAndVlsdBlocks(std::streambuf& buffer, bool update_cg,
     return true; // Nothing to update
   }
 
-
-  SetFilePosition(buffer, dt_block->DataPosition());
-  uint64_t count = 0;
-  while (count < dt_block->DataSize()) {
-    uint64_t record_id = 0;
-    count += ReadRecordId(buffer,record_id);
-    auto cg_find = counter_list.size() == 1 ?
-           counter_list.begin() : counter_list.find(record_id);
-    if (cg_find == counter_list.end()) {
-      MDF_DEBUG() << "Failed to find the CG block. Record ID: " << record_id;
+  std::vector<uint8_t> data; // Bytes not parsed yet.
+  bool more = true;
+  for (const auto* block : block_list) {
+    if (!more) {
       break;
     }
-    auto& counter = cg_find->second;
-    auto* cg_block = counter.CgBlock;
-    uint64_t count_bytes = 0;
-    if (cg_block == nullptr) {
-      MDF_ERROR() << "CG block pointer is null. Internal error.";
-      return false;
-    }
-    if ((cg_block->Flags() & CgFlag::VlsdChannel) != 0) {
-      // This is normally used for string,
-      // and the CG block only includes one signal
-      uint32_t length = 0;
-      count_bytes += ReadNumber(buffer, length);
-      //std::vector<uint8_t> record(length, 0);
-      if (length > 0) {
-        count_bytes += StepFilePosition(buffer, length);
+    uint64_t data_size = data.size();
+    data.resize(static_cast<size_t>(data_size + block->DataSize()), 0);
+    block->CopyDataToBuffer(buffer, data, data_size);
+    data.resize(static_cast<size_t>(data_size));
+
+    uint64_t count = 0; // Bytes of complete records
+    while (count + rec_id_size_ < data_size) {
+      uint64_t index = count;
+      uint64_t record_id = 0;
+      for (uint8_t id_byte = 0; id_byte < rec_id_size_; ++id_byte) {
+        record_id |= static_cast<uint64_t>(data[index++]) << (8 * id_byte);
       }
-    } else {
-      // Normal fixed length records
-      const size_t record_size = cg_block->NofDataBytes() + cg_block->NofInvalidBytes();
-      count_bytes += StepFilePosition(buffer, record_size);
+      auto cg_find = counter_list.size() == 1 ?
+             counter_list.begin() : counter_list.find(record_id);
+      if (cg_find == counter_list.end()) {
+        MDF_DEBUG() << "Failed to find the CG block. Record ID: " << record_id;
+        more = false;
+        break;
+      }
+      auto& counter = cg_find->second;
+      const auto* cg_block = counter.CgBlock;
+      uint64_t count_bytes = 0;
+      if ((cg_block->Flags() & CgFlag::VlsdChannel) != 0) {
+        // This is normally used for string,
+        // and the CG block only includes one signal
+        if (index + 4 > data_size) {
+          break;
+        }
+        uint32_t length = 0;
+        for (uint8_t byte = 0; byte < 4; ++byte) {
+          length |= static_cast<uint32_t>(data[index + byte]) << (8 * byte);
+        }
+        count_bytes = 4ULL + length;
+      } else {
+        // Normal fixed length records
+        count_bytes = cg_block->NofDataBytes() + cg_block->NofInvalidBytes();
+      }
+      if (index + count_bytes > data_size || index + count_bytes == count) {
+        break; // The record isn't complete or is empty.
+      }
+      ++counter.NofSamples;
+      counter.NofBytes += count_bytes;
+      count = index + count_bytes;
     }
-    ++counter.NofSamples;
-    counter.NofBytes += count_bytes;
-    count += count_bytes;
+    data.erase(data.begin(), data.begin() + static_cast<int64_t>(count));
   }
   for (const auto& [record_id_1, counter1] : counter_list) {
     Cg4Block* cg_block = counter1.CgBlock;
-- 
2.43.0


From ddf92afd77751371c58d0418325c5651d9f1940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:17 +0000
Subject: [PATCH 19/44] fix: engineering value of a text channel

---
 include/mdf/ichannelconversion.h |  4 ++--
 include/mdf/ichannelobserver.h   | 25 +++++++++++++++++++++----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/mdf/ichannelconversion.h b/include/mdf/ichannelconversion.h
index eeefc27..b310b46 100644
--- a/include/mdf/ichannelconversion.h
+++ b/include/mdf/ichannelconversion.h
@@ -277,7 +277,7 @@ class IChannelConversion : public IBlock {
   template <typename T = std::string, typename V = std::string>
   bool Convert(const std::string& channel_value, std::string& eng_value) const {
     if (Type() == ConversionType::TextToTranslation) {
-      ConvertTextToTranslation(channel_value, eng_value);
+      return ConvertTextToTranslation(channel_value, eng_value);
     } else if (Type() == ConversionType::NoConversion) {
       eng_value = channel_value;
     } else {
@@ -524,7 +524,7 @@ template <typename T, typename V>
 bool IChannelConversion::Convert(const std::string& channel_value,
     double& eng_value) const {
   if (Type() == ConversionType::TextToValue) {
-    ConvertTextToValue(channel_value, eng_value);
+    return ConvertTextToValue(channel_value, eng_value);
   } else if (Type() == ConversionType::NoConversion) {
     eng_value = std::stod(channel_value);
   } else {
diff --git a/include/mdf/ichannelobserver.h b/include/mdf/ichannelobserver.h
index 18c3844..6728bf5 100644
--- a/include/mdf/ichannelobserver.h
+++ b/include/mdf/ichannelobserver.h
@@ -8,7 +8,9 @@
  * channel.
  */
 #pragma once
+#include <sstream>
 #include <string>
+#include <type_traits>
 #include <vector>
 
 #include "mdf/ichannel.h"
@@ -360,10 +362,25 @@ bool IChannelObserver::GetEngValue(uint64_t sample, V& value, uint64_t array_ind
     case ChannelDataType::StringUTF8: {
       std::string v;
       valid = GetSampleText(sample,  v, array_index);
-      std::string temp;
-      conversion->Convert(v, temp);
-      std::istringstream temp1(temp);
-      temp1 >> value;
+      if (conversion->Type() == ConversionType::TextToValue) {
+        double temp = 0.0;
+        valid = valid && conversion->Convert(v, temp);
+        if constexpr (std::is_same_v<V, std::string>) {
+          value = MdfHelper::FormatDouble(temp,
+              conversion->IsDecimalUsed() ? conversion->Decimals() : 6);
+        } else {
+          value = static_cast<V>(temp);
+        }
+      } else {
+        std::string temp;
+        valid = valid && conversion->Convert(v, temp);
+        if constexpr (std::is_same_v<V, std::string>) {
+          value = temp;
+        } else {
+          std::istringstream temp1(temp);
+          temp1 >> value;
+        }
+      }
       break;
     }
 
-- 
2.43.0


From e0c6156dba80b76bf79a42a2990e1aeb07c18d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:17 +0000
Subject: [PATCH 20/44] fix: MDF 3 conversions know the data type of their
 channel

---
 mdflib/src/cn3block.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdflib/src/cn3block.cpp b/mdflib/src/cn3block.cpp
index 4cd8d0d..d9c4fe1 100644
--- a/mdflib/src/cn3block.cpp
+++ b/mdflib/src/cn3block.cpp
@@ -230,6 +230,7 @@ uint64_t Cn3Block::Read(std::streambuf& buffer) {
     cc_block_ = std::make_unique<Cc3Block>();
     cc_block_->Init(*this);
     cc_block_->Read(buffer);
+    cc_block_->ChannelDataType(static_cast<uint8_t>(DataType()));
   }
 
   if (Link(kIndexCe) > 0) {
-- 
2.43.0


From 53375a470d2f9b63b2121f12a5195eb4c6624433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:23 +0000
Subject: [PATCH 21/44] fix: incompressible data could not be deflated

---
 mdflib/src/zlibutil.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/zlibutil.cpp b/mdflib/src/zlibutil.cpp
index 0f9e4b3..bb80c9e 100644
--- a/mdflib/src/zlibutil.cpp
+++ b/mdflib/src/zlibutil.cpp
@@ -112,8 +112,11 @@ bool Deflate(const ByteArray& buf_in, ByteArray& buf_out) {
   if (buf_in.empty()) {
     return false;
   }
-  if (buf_out.size() < 100) {
-    buf_out.resize(100, 0);
+  // The compressed size of incompressible data is larger than its input.
+  const auto max_size = static_cast<size_t>(
+      compressBound(static_cast<uLong>(buf_in.size())));
+  if (buf_out.size() < max_size) {
+    buf_out.resize(max_size, 0);
   }
 
   z_stream s{};
-- 
2.43.0


From ce7c9795985cba4b116d1b9b458decd0d4db4764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:23 +0000
Subject: [PATCH 22/44] fix: attachments of empty files and open file handles
 of embedded files

---
 mdflib/src/at4block.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mdflib/src/at4block.cpp b/mdflib/src/at4block.cpp
index 756d228..8599de7 100644
--- a/mdflib/src/at4block.cpp
+++ b/mdflib/src/at4block.cpp
@@ -75,6 +75,7 @@ bool FileToBuffer(const std::string& filename, mdf::ByteArray& dest) {
       Platform::fileopen(&file, filename.c_str(), "rb");
       if (file != nullptr) {
         const auto nof_bytes = fread(dest.data(), 1, static_cast<size_t>(size), file);
+        std::fclose(file);
         if (nof_bytes < size) {
           dest.resize(nof_bytes);
         }
@@ -179,7 +180,9 @@ uint64_t At4Block::Write(std::streambuf& buffer) {
           flags_ |= At4Flags::kUsingMd5;
         }
         original_size_ = file_size(filename);
-        if (IsEmbedded() && IsCompressed()) {
+        if (IsEmbedded() && original_size_ == 0) {
+          data_buffer_.clear(); // An empty file, nothing to embed
+        } else if (IsEmbedded() && IsCompressed()) {
           if (const bool compress = Deflate(filename_, data_buffer_); !compress) {
             MDF_ERROR() << "Compress failure. File: " << filename;
             return 0;
@@ -245,8 +248,8 @@ void At4Block::ReadData(std::streambuf& buffer,
     if (!dest.is_open()) {
       throw std::ios_base::failure("Failed to open the destination file");
     }
-    const bool error = IsCompressed() ? !Inflate(buffer, dest, nof_bytes_)
-                                      : !CopyBytes(buffer, dest, nof_bytes_);
+    const bool error = IsCompressed() && nof_bytes_ > 0 ? !Inflate(buffer, dest, nof_bytes_)
+                            : !CopyBytes(buffer, dest, nof_bytes_);
     dest.close();
     if ( error ) {
       throw std::ios_base::failure("Failed to copy correct number of bytes");
@@ -276,8 +279,8 @@ void At4Block::ReadData(std::streambuf& buffer,
   }
   SetFilePosition(buffer, data_position_);
   if (IsEmbedded()) {
-    const bool error = IsCompressed() ? !Inflate(buffer, dest_buffer, nof_bytes_)
-                                      : !CopyBytes(buffer, dest_buffer, nof_bytes_);
+    const bool error = IsCompressed() && nof_bytes_ > 0 ? !Inflate(buffer, dest_buffer, nof_bytes_)
+                            : !CopyBytes(buffer, dest_buffer, nof_bytes_);
     if ( error ) {
       throw std::ios_base::failure("Failed to copy correct number of bytes");
     }
-- 
2.43.0


From 28badaec8d05b16c5c1c2918199e70198e9d5a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:23 +0000
Subject: [PATCH 23/44] fix: ISO time fractions and time zone offsets, time
 zones west of Greenwich

---
 mdflib/src/mdf3timestamp.cpp |  6 +++---
 mdflib/src/timestamp.cpp     | 30 +++++++++++++++---------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/mdflib/src/mdf3timestamp.cpp b/mdflib/src/mdf3timestamp.cpp
index 494821f..0be6e15 100644
--- a/mdflib/src/mdf3timestamp.cpp
+++ b/mdflib/src/mdf3timestamp.cpp
@@ -2,9 +2,9 @@
 
 #include "mdf/mdfhelper.h"
 namespace {
-constexpr uint64_t kNanosecondsPerSecond = 1'000'000'000;
-constexpr uint64_t kNanosecondsPerMinute = 60 * kNanosecondsPerSecond;
-constexpr uint64_t kNanosecondsPerHour = 60 * kNanosecondsPerMinute;
+constexpr int64_t kNanosecondsPerSecond = 1'000'000'000;
+constexpr int64_t kNanosecondsPerMinute = 60 * kNanosecondsPerSecond;
+constexpr int64_t kNanosecondsPerHour = 60 * kNanosecondsPerMinute;
 constexpr uint32_t kSecondsPerMinute = 60;
 constexpr uint32_t kSecondsPerHour = 60 * kSecondsPerMinute;
 }  // namespace
diff --git a/mdflib/src/timestamp.cpp b/mdflib/src/timestamp.cpp
index f2b8624..4225fe5 100644
--- a/mdflib/src/timestamp.cpp
+++ b/mdflib/src/timestamp.cpp
@@ -12,9 +12,9 @@
 using namespace std::chrono;
 
 namespace {
-constexpr uint64_t kNanosecondsPerSecond = 1'000'000'000;
-constexpr uint64_t kNanosecondsPerMinute = 60 * kNanosecondsPerSecond;
-constexpr uint64_t kNanosecondsPerHour = 60 * kNanosecondsPerMinute;
+constexpr int64_t kNanosecondsPerSecond = 1'000'000'000;
+constexpr int64_t kNanosecondsPerMinute = 60 * kNanosecondsPerSecond;
+constexpr int64_t kNanosecondsPerHour = 60 * kNanosecondsPerMinute;
 constexpr uint32_t kSecondsPerMinute = 60;
 constexpr uint32_t kSecondsPerHour = 60 * kSecondsPerMinute;
 }  // namespace
@@ -220,7 +220,7 @@ void UtcTimestamp::FromIsoDateTime(const std::string &date_time) {
         case DateState::MilliSecond:
           if (input == '.') {
             state = DateState::MilliSecond;
-          } else if (std::isdigit(input) && minute.str().size() < 9) {
+          } else if (std::isdigit(input) && millisecond.str().size() < 9) {
             millisecond << input;
           } else if (input == 'Z') {
             utc = true;
@@ -233,8 +233,11 @@ void UtcTimestamp::FromIsoDateTime(const std::string &date_time) {
         case DateState::TzHour:
           if (input == ':') {
             state = DateState::TzMinute;
-          } else if (std::isdigit(input) ) {
+          } else if (std::isdigit(input) && tz_hour.str().size() < 3) {
             tz_hour << input;
+          } else if (std::isdigit(input)) {
+            tz_minute << input;
+            state = DateState::TzMinute;
           }
           break;
 
@@ -296,7 +299,9 @@ void UtcTimestamp::FromIsoDateTime(const std::string &date_time) {
     tz_offset = tz_hour.str().empty() ? 0 : std::stoi(tz_hour.str());
     // MDF_TRACE() << tz_hour.str() << "/" << tz_offset << std::endl;
     tz_offset *= 60;  // Now minutes
-    tz_offset += tz_minute.str().empty() ? 0 : std::stoi(tz_minute.str());
+    const int tz_min = tz_minute.str().empty() ? 0 : std::stoi(tz_minute.str());
+    // The sign is valid for both hours and minutes
+    tz_offset += !tz_hour.str().empty() && tz_hour.str().front() == '-' ? -tz_min : tz_min;
     tz_offset *= 60;  // Now in seconds
 
     // 0..59 as normal
@@ -324,15 +329,10 @@ void UtcTimestamp::FromIsoDateTime(const std::string &date_time) {
 
     utc_timestamp_ = utc_time;
     utc_timestamp_ *= 1'000'000'000;  // Now ns
-    if (millisecond.str().empty()) {
-      return;
-    } else if (millisecond.str().size() <= 3) {
-      utc_timestamp_ += std::stoull(millisecond.str()) * 1'000'000;
-    } else if (millisecond.str().size() <= 6) {
-      utc_timestamp_ += std::stoull(millisecond.str()) * 1'000;
-    } else {
-      utc_timestamp_ += std::stoull(millisecond.str());
-    }
+    // The fraction is in decimals of a second
+    std::string fraction = millisecond.str();
+    fraction.resize(9, '0');
+    utc_timestamp_ += std::stoull(fraction);
   } catch (const std::exception& err) {
     MDF_ERROR() << "Invalid cast: " << err.what();
   }
-- 
2.43.0


From e878dd71cff359630df04432849abe3512b99a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:21 +0000
Subject: [PATCH 24/44] fix: LIN message members were stored elsewhere than
 their channels declare

---
 mdflib/src/linconfigadapter.cpp | 12 ++++++------
 mdflib/src/linmessage.cpp       |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mdflib/src/linconfigadapter.cpp b/mdflib/src/linconfigadapter.cpp
index e93ba1c..44ca3b0 100644
--- a/mdflib/src/linconfigadapter.cpp
+++ b/mdflib/src/linconfigadapter.cpp
@@ -222,7 +222,7 @@ const bool mandatory_only = MandatoryMembersOnly();
   }
 
   if (IChannel* frame_bytes =
-          cn_frame->CreateChannelComposition("LIN_ChecksumError..DataBytes");
+          cn_frame->CreateChannelComposition("LIN_ChecksumError.DataBytes");
       frame_bytes != nullptr) {
     frame_bytes->Type(ChannelType::MaxLength);
     frame_bytes->BitCount(64);
@@ -239,7 +239,7 @@ const bool mandatory_only = MandatoryMembersOnly();
       crc_model != nullptr) {
     crc_model->DataType(ChannelDataType::SignedIntegerLe);
   }
-  if ( IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_ChecksumError..SOF", 21, 0, 64);
+  if ( IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_ChecksumError.SOF", 21, 0, 64);
       sof != nullptr) {
      sof->Unit("ns");
   }
@@ -315,7 +315,7 @@ void LinConfigAdapter::CreateReceiveErrorChannels(IChannelGroup& group) const {
     frame_bytes->BitOffset(0);
   }
 
-  if (IChannel* crc_model = CreateBitsChannel(*cn_frame, "LIN_ReceiveError.ChecksumModel",9, 6, 2);
+  if (IChannel* crc_model = CreateBitsChannel(*cn_frame, "LIN_ReceiveError.ChecksumModel", 11, 4, 2);
       crc_model != nullptr) {
     crc_model->DataType(ChannelDataType::SignedIntegerLe);
   }
@@ -408,7 +408,7 @@ void LinConfigAdapter::CreateWakeUpChannels(IChannelGroup& group) const {
     baudrate->Unit("bits/s");
   }
 
-  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_WakeUp.SOF", 13, 0, 8);
+  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_WakeUp.SOF", 13, 0, 64);
       sof != nullptr) {
     sof->Unit("ns");
   }
@@ -431,7 +431,7 @@ void LinConfigAdapter::CreateTransmissionErrorChannels(IChannelGroup& group) con
     CreateSourceInformation(*cn_frame);
   }
   CreateBusChannel(*cn_frame);
-  CreateBitsChannel(*cn_frame,"LIN_Transmission.ID", 9, 0, 6);
+  CreateBitsChannel(*cn_frame,"LIN_TransmissionError.ID", 9, 0, 6);
 
   if (mandatory) {
     return;
@@ -491,7 +491,7 @@ void LinConfigAdapter::CreateSpikeChannels(IChannelGroup& group) const {
     baudrate->Unit("bits/s");
       }
 
-  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_Spike.SOF", 13, 0, 8);
+  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_Spike.SOF", 13, 0, 64);
       sof != nullptr) {
     sof->Unit("ns");
       }
diff --git a/mdflib/src/linmessage.cpp b/mdflib/src/linmessage.cpp
index 1f2ac0b..0d511df 100644
--- a/mdflib/src/linmessage.cpp
+++ b/mdflib/src/linmessage.cpp
@@ -166,7 +166,7 @@ void LinMessage::MakeDataFrame(SampleRecord& sample) const {
   // First 8 bytes are time in seconds (double)
   record[8] = BusChannel();
   record[9] = LinId() & kLinIdMask;
-  record[9] |= (Dir() ? 0x01 : 0x00) << 6;
+  record[9] |= Dir() ? kDirMask : 0x00;
   record[10] = ReceivedDataByteCount();
   record[10] |= (DataLength() & 0x0F) << 4;
   FillDataBytes(record, 11, data_bytes_);// The MLSD storage is fixed in LIN.
@@ -225,10 +225,10 @@ void LinMessage::MakeChecksumError(SampleRecord& sample) const {
   // First 8 bytes are time in seconds (double)
   record[8] = BusChannel();
   record[9] = LinId() & kLinIdMask;
+  record[9] |= Dir() ? kDirMask : 0x00;
   if (mandatory) {
     return;
   }
-  record[9] |= (Dir() ? 0x01 : 0x00) << 6;
   record[10] = ReceivedDataByteCount();
   record[10] |= (DataLength() & 0x0F) << 4;
   FillDataBytes(record, 11, data_bytes_);// The MLSD storage is fixed in LIN.
-- 
2.43.0


From 96f7ac4cff2d2d324c442972de418bba1e0ebbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:21 +0000
Subject: [PATCH 25/44] fix: FlexRay channel, payload index and bus log
 configuration

---
 mdflib/src/flexrayconfigadapter.cpp | 12 ++++++------
 mdflib/src/flexraymessage.cpp       | 22 +++++++++++-----------
 mdflib/src/mdfwriter.cpp            |  5 +++++
 3 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/mdflib/src/flexrayconfigadapter.cpp b/mdflib/src/flexrayconfigadapter.cpp
index cf6cbf8..367edb2 100644
--- a/mdflib/src/flexrayconfigadapter.cpp
+++ b/mdflib/src/flexrayconfigadapter.cpp
@@ -192,9 +192,9 @@ void FlexRayConfigAdapter::CreateFrameChannel(IChannelGroup& channel_group) cons
   parent_frame->Type(ChannelType::FixedLength);
   parent_frame->Sync(ChannelSyncType::None);
   if (mandatory_members_only) {
-    parent_frame->DataBytes(24-8);
+    parent_frame->DataBytes(22-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -245,7 +245,7 @@ void FlexRayConfigAdapter::CreatePduChannel(IChannelGroup& channel_group) const
   parent_frame->Type(ChannelType::FixedLength);
   parent_frame->Sync(ChannelSyncType::None);
   if (mandatory_members_only) {
-    parent_frame->DataBytes(24-8);
+    parent_frame->DataBytes(22-8);
   } else {
     parent_frame->DataBytes(28-8);
   }
@@ -294,7 +294,7 @@ void FlexRayConfigAdapter::CreateFrameHeaderChannel(IChannelGroup& channel_group
   if (mandatory_members_only) {
     parent_frame->DataBytes(13-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -347,7 +347,7 @@ void FlexRayConfigAdapter::CreateNullFrameChannel(IChannelGroup& channel_group)
   if (mandatory_members_only) {
     parent_frame->DataBytes(12-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -399,7 +399,7 @@ void FlexRayConfigAdapter::CreateErrorFrameChannel(IChannelGroup& channel_group)
   if (mandatory_members_only) {
     parent_frame->DataBytes(12-8);
   } else {
-    parent_frame->DataBytes(35-8);
+    parent_frame->DataBytes(33-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
diff --git a/mdflib/src/flexraymessage.cpp b/mdflib/src/flexraymessage.cpp
index 29e5b42..fe638f5 100644
--- a/mdflib/src/flexraymessage.cpp
+++ b/mdflib/src/flexraymessage.cpp
@@ -43,7 +43,7 @@ const std::vector<uint8_t>& FlexRayFrame::DataBytes() const {
 void FlexRayFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                      data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 24 : 34;
+  const size_t record_size = mandatory_members_only ? 22 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -52,7 +52,7 @@ void FlexRayFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   record[12] = PayloadLength();
   record[13] = static_cast<uint8_t>(DataBytes().size());
@@ -95,7 +95,7 @@ const std::vector<uint8_t>& FlexRayPdu::DataBytes() const {
 void FlexRayPdu::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                    data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 24 : 28;
+  const size_t record_size = mandatory_members_only ? 22 : 28;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -104,7 +104,7 @@ void FlexRayPdu::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount() & 0x3F);
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[12] = Length();
   record[13] = static_cast<uint8_t>(DataBytes().size());
 
@@ -144,7 +144,7 @@ const std::vector<uint8_t>& FlexRayFrameHeader::FillDataBytes() const {
 void FlexRayFrameHeader::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                       data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 13 : 34;
+  const size_t record_size = mandatory_members_only ? 13 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -153,7 +153,7 @@ void FlexRayFrameHeader::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   record[12] = PayloadLength();
 
@@ -191,7 +191,7 @@ FlexRayNullFrame::FlexRayNullFrame()
 void FlexRayNullFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                                                              data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 12 : 34;
+  const size_t record_size = mandatory_members_only ? 12 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -200,7 +200,7 @@ void FlexRayNullFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   if (mandatory_members_only) {
     sample.vlsd_data = false;
@@ -238,7 +238,7 @@ FlexRayErrorFrame::FlexRayErrorFrame()
 void FlexRayErrorFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                                                              data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 12 : 35;
+  const size_t record_size = mandatory_members_only ? 12 : 33;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -247,7 +247,7 @@ void FlexRayErrorFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   if (mandatory_members_only) {
     sample.vlsd_data = false;
@@ -302,7 +302,7 @@ void FlexRaySymbol::ToRaw(SampleRecord& sample) const {
   // The time allocate the first 8 bytes (double)
   record[8] = BusChannel();
   record[9] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[9] |= (static_cast<uint8_t>(FlexRayChannelMask()) & 0x03) << 6;
+  record[9] |= (static_cast<uint8_t>(ChannelMask()) & 0x03) << 6;
   if (mandatory_members_only) {
     return;
   }
diff --git a/mdflib/src/mdfwriter.cpp b/mdflib/src/mdfwriter.cpp
index 7b5c945..8f6bc05 100644
--- a/mdflib/src/mdfwriter.cpp
+++ b/mdflib/src/mdfwriter.cpp
@@ -17,6 +17,7 @@
 #include "mdf/ethconfigadapter.h"
 #include "mdf/linconfigadapter.h"
 #include "mdf/mostconfigadapter.h"
+#include "mdf/flexrayconfigadapter.h"
 #include "mdfblock.h"
 #include "platform.h"
 #include "samplequeue.h"
@@ -414,6 +415,10 @@ bool MdfWriter::CreateBusLogConfiguration() {
     MostConfigAdapter configurator(*this);
     configurator.CreateConfig(*last_dg);
   }
+  if ((bus_type_ & MdfBusType::FlexRay) != 0) {
+    FlexRayConfigAdapter configurator(*this);
+    configurator.CreateConfig(*last_dg);
+  }
   return true;
 }
 
-- 
2.43.0


From 4769382db078240e266c95e98f3acb0fa2a7d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:21 +0000
Subject: [PATCH 26/44] fix: CAN observer lost R0, DLC, bit position, error
 type and message type

---
 mdflib/src/canbusobserver.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/mdflib/src/canbusobserver.cpp b/mdflib/src/canbusobserver.cpp
index f33b6ce..47f8257 100644
--- a/mdflib/src/canbusobserver.cpp
+++ b/mdflib/src/canbusobserver.cpp
@@ -80,12 +80,13 @@ CanBusObserver::CanBusObserver(const IDataGroup& data_group,
   edl_channel_ = GetChannel("EDL");
   brs_channel_ = GetChannel("BRS");
   esi_channel_ = GetChannel("ESI");
-  r0_channel_ = GetChannel("RO");
+  r0_channel_ = GetChannel("R0");
   r1_channel_ = GetChannel("R1");
   wake_up_channel_ = GetChannel("WakeUp");
   single_wire_channel_ = GetChannel("SingleWire");
   frame_duration_channel_ = GetChannel("FrameDuration");
   bit_position_channel_ = GetChannel("BitPosition");
+  error_type_channel_ = GetChannel("ErrorType");
 }
 
 std::string CanBusObserver::Name() const {
@@ -249,6 +250,7 @@ bool CanBusObserver::FireCallback() {
   }
   const uint64_t sample = last_sample_.sample;
   CanMessage msg;
+  msg.TypeOfMessage(message_type_);
   ParseCanMessage(msg);
 
   return OnCanMessage(sample, msg);
@@ -298,12 +300,6 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
     msg.ExtendedId(extended);
   }
 
-  if (dlc_channel_ != nullptr) {
-    uint8_t dlc = 0;
-    GetChannelValue(*dlc_channel_, current_sample_index_, record, dlc);
-    msg.Dlc(dlc);
-  }
-
   if (length_channel_ != nullptr) {
     double length = 0.0;
     GetEngValue(*length_channel_, current_sample_index_, record, length);
@@ -340,6 +336,14 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
     }
   }
 
+  if (dlc_channel_ != nullptr) {
+    // The payload functions above also sets the DLC. Therefore, set the DLC
+    // after the payload.
+    uint8_t dlc = 0;
+    GetChannelValue(*dlc_channel_, current_sample_index_, record, dlc);
+    msg.Dlc(dlc);
+  }
+
   if (dir_channel_ != nullptr) {
     // Note that eng value is a enumerate string
     bool direction = false;
@@ -411,7 +415,7 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
   if (bit_position_channel_ != nullptr) {
     double position = 0.0;
     GetEngValue(*bit_position_channel_, current_sample_index_, record, position);
-    msg.FrameDuration(static_cast<uint16_t>(position));
+    msg.BitPosition(static_cast<uint16_t>(position));
    }
 
    if (error_type_channel_ != nullptr) {
-- 
2.43.0


From e5d0f5f8e707a2b6faf904e8fa1b34e727ecc1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:10 +0000
Subject: [PATCH 27/44] fix: look up the sample queue under the write cache
 lock

---
 mdflib/src/writecache.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/mdflib/src/writecache.cpp b/mdflib/src/writecache.cpp
index b97feec..294e64a 100644
--- a/mdflib/src/writecache.cpp
+++ b/mdflib/src/writecache.cpp
@@ -96,6 +96,8 @@ void WriteCache::Init() {
 
 void WriteCache::Exit() {
   StopWorkThread();
+  // Other threads may still try to save samples.
+  std::lock_guard lock(locker_);
   cache_.clear();
 }
 
@@ -170,17 +172,17 @@ void WriteCache::RecalculateTimeMaster() {
 void WriteCache::AddSample(const IDataGroup& data_group,
                            const IChannelGroup& channel_group, uint64_t time,
                            SampleRecord&& sample_record) {
+  std::lock_guard lock(locker_);
   if (SampleQueue* queue = GetSampleQueue(channel_group);
-     queue != nullptr) {
-    std::lock_guard lock(locker_);
+      queue != nullptr) {
     queue->AddSample(channel_group, time, std::move(sample_record));
   }
 }
 
 void WriteCache::SaveSample(const IChannelGroup& channel_group, uint64_t time) {
+  std::lock_guard lock(locker_);
   if (SampleQueue* queue = GetSampleQueue(channel_group);
       queue != nullptr) {
-    std::lock_guard lock(locker_);
     queue->SaveSample(channel_group, time);
   }
 }
@@ -188,9 +190,9 @@ void WriteCache::SaveSample(const IChannelGroup& channel_group, uint64_t time) {
 void WriteCache::SaveSample(const IDataGroup& data_group,
                             const IChannelGroup& channel_group,
                             uint64_t time) {
+  std::lock_guard lock(locker_);
   if (SampleQueue* queue = GetSampleQueue(data_group);
       queue != nullptr) {
-    std::lock_guard lock(locker_);
     queue->SaveSample(channel_group, time);
   }
 }
@@ -199,9 +201,9 @@ void WriteCache::SaveCanMessage(const IChannelGroup& channel_group, uint64_t tim
                     const CanMessage& msg) {
   msg.DataGroup(channel_group.DataGroup());
   msg.ChannelGroup(&channel_group);
+  std::lock_guard lock(locker_);
   if (SampleQueue* queue = GetSampleQueue(channel_group);
       queue != nullptr) {
-    std::lock_guard lock(locker_);
     queue->SaveCanMessage(channel_group, time, msg);
   }
 }
@@ -211,9 +213,9 @@ void WriteCache::SaveCanMessage(const IDataGroup& data_group,
                                 const CanMessage& msg) {
   msg.DataGroup(&data_group);
   msg.ChannelGroup(&channel_group);
+  std::lock_guard lock(locker_);
   if (SampleQueue* queue = GetSampleQueue(data_group);
       queue != nullptr) {
-    std::lock_guard lock(locker_);
     queue->SaveCanMessage(channel_group, time, msg);
   }
 }
@@ -222,9 +224,9 @@ void WriteCache::SaveLinMessage(const IChannelGroup& channel_group, uint64_t tim
                                 const LinMessage& msg) {
   msg.DataGroup(channel_group.DataGroup());
   msg.ChannelGroup(&channel_group);
+  std::lock_guard lock(locker_);
   if (SampleQueue* queue = GetSampleQueue(channel_group);
       queue != nullptr) {
-    std::lock_guard lock(locker_);
     queue->SaveLinMessage(channel_group, time, msg);
   }
 }
@@ -236,9 +238,9 @@ void WriteCache::SaveLinMessage(const IDataGroup& data_group,
                                 const LinMessage& msg) {
   msg.DataGroup(&data_group);
   msg.ChannelGroup(&channel_group);
+  std::lock_guard lock(locker_);
   if (SampleQueue* queue = GetSampleQueue(data_group);
       queue != nullptr) {
-    std::lock_guard lock(locker_);
     queue->SaveLinMessage(channel_group, time, msg);
   }
 }
@@ -247,9 +249,9 @@ void WriteCache::SaveEthMessage(const IChannelGroup& channel_group, uint64_t tim
                                 const EthMessage& msg) {
   msg.DataGroup(channel_group.DataGroup());
   msg.ChannelGroup(&channel_group);
+  std::lock_guard lock(locker_);
   if (SampleQueue* queue = GetSampleQueue(channel_group);
       queue != nullptr) {
-    std::lock_guard lock(locker_);
     queue->SaveEthMessage(channel_group, time, msg);
   }
 }
@@ -259,9 +261,9 @@ void WriteCache::SaveEthMessage(const IDataGroup& data_group,
                                 const EthMessage& msg) {
   msg.DataGroup(&data_group);
   msg.ChannelGroup(&channel_group);
+  std::lock_guard lock(locker_);
   if (SampleQueue* queue = GetSampleQueue(data_group);
       queue != nullptr) {
-    std::lock_guard lock(locker_);
     queue->SaveEthMessage(channel_group, time, msg);
   }
 }
@@ -272,9 +274,9 @@ void WriteCache::SaveMostMessage(const IDataGroup& data_group,
   msg.DataGroup( &data_group);
   msg.ChannelGroup(&channel_group);
 
+  std::lock_guard lock(locker_);
   if (SampleQueue* queue = GetSampleQueue(data_group);
       queue != nullptr) {
-    std::lock_guard lock(locker_);
     queue->SaveMostMessage(channel_group, time, msg);
   }
 }
@@ -285,9 +287,9 @@ void WriteCache::SaveFlexRayMessage(const IDataGroup& data_group,
   msg.DataGroup( &data_group);
   msg.ChannelGroup(&channel_group);
 
+  std::lock_guard lock(locker_);
   if (SampleQueue* queue = GetSampleQueue(data_group);
       queue != nullptr) {
-    std::lock_guard lock(locker_);
     queue->SaveFlexRayMessage(channel_group, time, msg);
   }
 }
-- 
2.43.0


From 8ba3ad6d6727b242c39c71008cdab1f071917326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:10 +0000
Subject: [PATCH 28/44] fix: set the header start time before samples may be
 saved

---
 mdflib/src/mdfwriter.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/mdflib/src/mdfwriter.cpp b/mdflib/src/mdfwriter.cpp
index 8f6bc05..b59351a 100644
--- a/mdflib/src/mdfwriter.cpp
+++ b/mdflib/src/mdfwriter.cpp
@@ -285,18 +285,17 @@ void MdfWriter::StartMeasurement(uint64_t start_time) {
   // times to relative times by using the start_time_.
   RecalculateTimeMaster();
 
-  // The samples are relative the start time now, so the work thread may
-  // start to save them.
-  write_state_ = WriteState::StartMeas;
-  NotifySample();
-
   // Set the time in the header if this is the first DG block in the file.
-  // This gives a better start time than when the file was created.
+  // This gives a better start time than when the file was created. Note that
+  // this must be done before any sample is saved.
   if ( auto* header = Header();
       header != nullptr && IsFirstMeasurement()) {
     header->StartTime(start_time);
   }
 
+  // The samples are relative the start time now, so the work thread may
+  // start to save them.
+  write_state_ = WriteState::StartMeas;
   NotifySample();
 }
 
@@ -308,18 +307,17 @@ void MdfWriter::StartMeasurement(ITimestamp &start_time) {
   // times to relative times by using the start_time_.
   RecalculateTimeMaster();
 
-  // The samples are relative the start time now, so the work thread may
-  // start to save them.
-  write_state_ = WriteState::StartMeas;
-  NotifySample();
-
   // Set the time in the header if this is the first DG block in the file.
-  // This gives a better start time than when the file was created.
+  // This gives a better start time than when the file was created. Note that
+  // this must be done before any sample is saved.
   if ( auto* header = Header();
       header != nullptr && IsFirstMeasurement()) {
     header->StartTime(start_time);
   }
 
+  // The samples are relative the start time now, so the work thread may
+  // start to save them.
+  write_state_ = WriteState::StartMeas;
   NotifySample();
 }
 
-- 
2.43.0


From 5c47a905006873dd682355d0923b6b28ccaad3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:10 +0000
Subject: [PATCH 29/44] fix: pre-trigger trim with samples out of time order

---
 mdflib/src/samplequeue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/samplequeue.cpp b/mdflib/src/samplequeue.cpp
index 61d3c18..503e48f 100644
--- a/mdflib/src/samplequeue.cpp
+++ b/mdflib/src/samplequeue.cpp
@@ -74,8 +74,8 @@ void SampleQueue::TrimQueue() {
       }
     } else {
       // Measurement not started. The queue shall be at least the pre-trig time
-      const auto buffer_time = last_time - next_time;
-      if (buffer_time <= pre_trig_time) {
+      // Note that samples from different threads may not be in time order.
+      if (last_time <= next_time || last_time - next_time <= pre_trig_time) {
         break;
       }
     }
-- 
2.43.0


From aefc1987ed089c8f77ed54ec19f351cd6682ee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:52 +0000
Subject: [PATCH 30/44] fix: texts starting with '<' were written as MD blocks

---
 mdflib/src/tx4block.cpp | 9 +++++++--
 mdflib/src/tx4block.h   | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/tx4block.cpp b/mdflib/src/tx4block.cpp
index c1b1a8d..5e78a73 100644
--- a/mdflib/src/tx4block.cpp
+++ b/mdflib/src/tx4block.cpp
@@ -13,7 +13,11 @@
 
 namespace mdf::detail {
 
-Tx4Block::Tx4Block(std::string text) : text_(std::move(text)) {}
+Tx4Block::Tx4Block() { block_type_ = "##TX"; }
+
+Tx4Block::Tx4Block(std::string text) : text_(std::move(text)) {
+  block_type_ = "##TX";
+}
 
 std::string FixCommentToLine(const std::string &comment, size_t max) {
   std::ostringstream temp;
@@ -85,7 +89,8 @@ uint64_t Tx4Block::Write(std::streambuf& buffer) {
   if (update) {
     return block_size_;
   }
-  const bool is_xml = !text_.empty() && text_[0] == '<';
+  const bool is_xml =
+      block_type_ == "##MD" && !text_.empty() && text_[0] == '<';
   block_type_ = is_xml ? "##MD" : "##TX";
   block_size_ = static_cast<uint16_t>(24 + text_.size() + 1);
   link_list_.clear();
diff --git a/mdflib/src/tx4block.h b/mdflib/src/tx4block.h
index 921f8d8..57bcdaf 100644
--- a/mdflib/src/tx4block.h
+++ b/mdflib/src/tx4block.h
@@ -13,7 +13,7 @@ std::string FixCommentToLine(const std::string& comment, size_t max);
 
 class Tx4Block : public MdfBlock {
  public:
-  Tx4Block() = default;
+  Tx4Block();
   explicit Tx4Block(std::string  text);
 
   void GetBlockProperty(BlockPropertyList& dest) const override;
-- 
2.43.0


From c49989799fe6aa84ab4ff452b81d57c1a46f3f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:52 +0000
Subject: [PATCH 31/44] fix: white space in XML attributes and the precision of
 XML numbers

---
 mdflib/src/ixmlnode.cpp | 20 +++++++++++++++++---
 mdflib/src/ixmlnode.h   |  5 +++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/ixmlnode.cpp b/mdflib/src/ixmlnode.cpp
index d7a39ba..34898dd 100644
--- a/mdflib/src/ixmlnode.cpp
+++ b/mdflib/src/ixmlnode.cpp
@@ -11,7 +11,9 @@
 #include "xmlnode.h"
 
 namespace {
-std::string XmlString(const std::string &text) {
+/// Converts a text to XML. A parser normalizes the white spaces in an
+/// attribute and the carriage return in a value, so those are escaped.
+std::string XmlString(const std::string &text, bool attribute) {
   std::ostringstream xml_string;
   for (char in_char : text) {
     switch (in_char) {
@@ -35,6 +37,18 @@ std::string XmlString(const std::string &text) {
         xml_string << "&apos;";
         break;
 
+      case '\r':
+        xml_string << "&#13;";
+        break;
+
+      case '\n':
+        xml_string << (attribute ? "&#10;" : "\n");
+        break;
+
+      case '\t':
+        xml_string << (attribute ? "&#9;" : "\t");
+        break;
+
       default:
         xml_string << in_char;
         break;
@@ -146,12 +160,12 @@ void IXmlNode::Write(std::ostream &dest, size_t level) {  // NOLINT
   }
   dest << "<" << TagName();
   for (const auto &attr : attribute_list_) {
-    dest << " " << attr.first << "='" << XmlString(attr.second) << "'";
+    dest << " " << attr.first << "='" << XmlString(attr.second, true) << "'";
   }
   if (node_list_.empty() && value_.empty()) {
     dest << "/>" << std::endl;
   } else if (node_list_.empty()) {
-    dest << ">" << XmlString(value_) << "</" << TagName() << ">" << std::endl;
+    dest << ">" << XmlString(value_, false) << "</" << TagName() << ">" << std::endl;
   } else {
     dest << ">" << std::endl;
     for (const auto &node : node_list_) {
diff --git a/mdflib/src/ixmlnode.h b/mdflib/src/ixmlnode.h
index 93fcb3c..8a52ad3 100644
--- a/mdflib/src/ixmlnode.h
+++ b/mdflib/src/ixmlnode.h
@@ -7,9 +7,11 @@
  */
 #pragma once
 
+#include <limits>
 #include <memory>
 #include <sstream>
 #include <string>
+#include <type_traits>
 #include <unordered_map>
 #include <vector>
 #include <map>
@@ -206,6 +208,9 @@ template <typename T>
 void IXmlNode::Value(const T &value) {
   //  value_ = std::to_string(value);
   std::ostringstream temp;
+  if constexpr (std::is_floating_point_v<T>) {
+    temp.precision(std::numeric_limits<T>::max_digits10);
+  }
   temp << value;
   value_ = temp.str();
 }
-- 
2.43.0


From 59b115e23c40cec13bdcd497a541dedf56face24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:52 +0000
Subject: [PATCH 32/44] fix: a CG description removed the properties

---
 mdflib/src/cg4block.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/cg4block.cpp b/mdflib/src/cg4block.cpp
index c28207d..04813ab 100644
--- a/mdflib/src/cg4block.cpp
+++ b/mdflib/src/cg4block.cpp
@@ -67,7 +67,10 @@ void Cg4Block::Name(const std::string &name) { acquisition_name_ = name; }
 std::string Cg4Block::Name() const { return acquisition_name_; }
 
 void Cg4Block::Description(const std::string &description) {
-  md_comment_ = std::make_unique<Md4Block>(description);
+  auto *metadata = CreateMetaData();
+  if (metadata != nullptr) {
+    metadata->StringProperty("TX", description);
+  }
 }
 
 std::string Cg4Block::Description() const { return MdText(); }
-- 
2.43.0


From d55cf2e0cbc1076e30d8f2ac8739f16ac0a08cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:52 +0000
Subject: [PATCH 33/44] fix: references to blocks that are written later were
 lost

---
 include/mdf/ievent.h    |  4 ++--
 mdflib/src/ch4block.cpp | 30 ++++++++++++++++++++++++++++--
 mdflib/src/ch4block.h   |  4 ++++
 mdflib/src/cn4block.cpp | 16 ++++++++++++++++
 mdflib/src/cn4block.h   |  1 +
 mdflib/src/dg4block.cpp | 28 +++++++++++-----------------
 mdflib/src/dg4block.h   |  2 +-
 mdflib/src/ev4block.cpp | 27 ++++++++++++++++++++++-----
 mdflib/src/ev4block.h   |  9 ++++++---
 mdflib/src/hd4block.cpp | 18 ++++++++++++++++++
 10 files changed, 109 insertions(+), 30 deletions(-)

diff --git a/include/mdf/ievent.h b/include/mdf/ievent.h
index 48170f6..ee76506 100644
--- a/include/mdf/ievent.h
+++ b/include/mdf/ievent.h
@@ -105,9 +105,9 @@ class IEvent : public IBlock {
   [[nodiscard]] virtual const IEvent* RangeEvent() const = 0;
 
   /** \brief Adds a scope reference. */
-  virtual void AddScope(const void* scope) = 0;
+  virtual void AddScope(const IBlock* scope) = 0;
   /** \brief Returns referenced CN and CG blocks. */
-  [[nodiscard]] virtual const std::vector<const void*>& Scopes() const = 0;
+  [[nodiscard]] virtual const std::vector<const IBlock*>& Scopes() const = 0;
 
   /** \brief Adds an attachment reference. */
   virtual void AddAttachment(const IAttachment* attachment) = 0;
diff --git a/mdflib/src/ch4block.cpp b/mdflib/src/ch4block.cpp
index c44ee8e..080b3a2 100644
--- a/mdflib/src/ch4block.cpp
+++ b/mdflib/src/ch4block.cpp
@@ -100,6 +100,29 @@ uint64_t Ch4Block::Write(std::streambuf& buffer) {  // NOLINT
   return bytes;
 }
 
+void Ch4Block::UpdateReferences(std::streambuf& buffer) {  // NOLINT
+  // Elements may not be added after the block has been written
+  for (size_t index_n = 0;
+       index_n < nof_elements_ && index_n < element_list_.size(); ++index_n) {
+    const auto index = kIndexElement + (index_n * 3);
+    const auto &element = element_list_[index_n];
+    if (element.data_group != nullptr) {
+      UpdateLink(buffer, index, element.data_group->Index());
+    }
+    if (element.channel_group != nullptr) {
+      UpdateLink(buffer, index + 1, element.channel_group->Index());
+    }
+    if (element.channel != nullptr) {
+      UpdateLink(buffer, index + 2, element.channel->Index());
+    }
+  }
+  for (auto &ch4 : ch_list_) {
+    if (ch4) {
+      ch4->UpdateReferences(buffer);
+    }
+  }
+}
+
 MdfBlock *Ch4Block::Find(int64_t index) const {  // NOLINT
   for (auto &ch : ch_list_) {
     if (!ch) {
@@ -124,7 +147,10 @@ void Ch4Block::Type(ChType type) { type_ = static_cast<uint8_t>(type); }
 ChType Ch4Block::Type() const { return static_cast<ChType>(type_); }
 
 void Ch4Block::Description(const std::string &description) {
-  md_comment_ = std::make_unique<Md4Block>(description);
+  auto *metadata = CreateMetaData();
+  if (metadata != nullptr) {
+    metadata->StringProperty("TX", description);
+  }
 }
 
 std::string Ch4Block::Description() const { return MdText(); }
@@ -148,7 +174,7 @@ const std::vector<ElementLink> &Ch4Block::ElementLinks() const {
 void Ch4Block::FindReferencedBlocks(const Hd4Block &hd4) {  // NOLINT
   element_list_.clear();
   for (uint32_t index_n = 0; index_n < nof_elements_; ++index_n) {
-    const auto index = 5 + (index_n * 3);
+    const auto index = kIndexElement + (index_n * 3);
     if (index < link_list_.size()) {
       const auto *block1 = hd4.Find(Link(index));
       const auto *block2 = hd4.Find(Link(index + 1));
diff --git a/mdflib/src/ch4block.h b/mdflib/src/ch4block.h
index a9a3f58..fc9f27d 100644
--- a/mdflib/src/ch4block.h
+++ b/mdflib/src/ch4block.h
@@ -46,6 +46,10 @@ class Ch4Block : public MdfBlock, public IChannelHierarchy {
   uint64_t Write(std::streambuf& buffer) override;
   void FindReferencedBlocks(const Hd4Block &hd4);
 
+  /** \brief Updates the element links when the referenced blocks are written.
+   */
+  void UpdateReferences(std::streambuf& buffer);
+
   [[nodiscard]] IChannelHierarchy *CreateChannelHierarchy() override;
   [[nodiscard]] std::vector<IChannelHierarchy *> ChannelHierarchies()
       const override;
diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index 214bf46..691457c 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -1339,6 +1339,22 @@ void Cn4Block::DefaultX(const ElementLink &default_x) {
   default_x_ = default_x;
 }
 
+void Cn4Block::UpdateDefaultX(std::streambuf& buffer) {
+  const auto index = kIndexAt + attachment_list_.size();
+  if ((flags_ & CnFlag::DefaultX) == 0 || index + 2 >= link_list_.size()) {
+    return;
+  }
+  if (default_x_.data_group != nullptr) {
+    UpdateLink(buffer, index, default_x_.data_group->Index());
+  }
+  if (default_x_.channel_group != nullptr) {
+    UpdateLink(buffer, index + 1, default_x_.channel_group->Index());
+  }
+  if (default_x_.channel != nullptr) {
+    UpdateLink(buffer, index + 2, default_x_.channel->Index());
+  }
+}
+
 ElementLink Cn4Block::DefaultX() const {
   // The default_x_ variable is not populate when reading.
   // Fix file position to pointer transfer if needed.
diff --git a/mdflib/src/cn4block.h b/mdflib/src/cn4block.h
index 559b660..3415454 100644
--- a/mdflib/src/cn4block.h
+++ b/mdflib/src/cn4block.h
@@ -91,6 +91,7 @@ class Cn4Block : public DataListBlock, public IChannel {
   const std::vector<uint8_t>& DataList() const { return data_list_; }
 
   void UpdateDataLink(std::streambuf& buffer, int64_t position);
+  void UpdateDefaultX(std::streambuf& buffer);
   [[nodiscard]] int64_t DataLink() const;
 
   [[nodiscard]] std::vector<int64_t> AtLinkList() const;
diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index b237142..d775df8 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -136,13 +136,6 @@ uint64_t Dg4Block::Write(std::streambuf& buffer) {
         continue;
       }
       UpdateVlsdChannel(buffer, *cg4);
-      const auto& cn4_list = cg4->Cn4();
-      for (const auto& channel_x : cn4_list) {
-        if (!channel_x) {
-          continue;
-        }
-        UpdateDefaultX(buffer, *channel_x);
-      }
     }
   }
   // Need to write any data block, so it is positioned last in the file
@@ -599,16 +592,17 @@ void Dg4Block::UpdateVlsdChannel(std::streambuf& buffer, const Cg4Block& cg4) co
     }
   }
 }
-void Dg4Block::UpdateDefaultX(std::streambuf& buffer, Cn4Block& cn4) {
-  if ((cn4.Flags() & CnFlag::DefaultX) != 0) {
-    const auto default_x = cn4.DefaultX();
-    const auto index = 8 + cn4.AttachmentList().size();
-    const auto *dg4_x = default_x.data_group;
-    const auto *cg4_x = default_x.channel_group;
-    const auto *cn4_x = default_x.channel;
-    cn4.UpdateLink(buffer, index + 0, dg4_x != nullptr ? dg4_x->Index() : 0);
-    cn4.UpdateLink(buffer, index + 1, cg4_x != nullptr ? cg4_x->Index() : 0);
-    cn4.UpdateLink(buffer, index + 2, cn4_x != nullptr ? cn4_x->Index() : 0);
+
+void Dg4Block::UpdateReferences(std::streambuf& buffer) const {
+  for (const auto& cg4 : cg_list_) {
+    if (!cg4) {
+      continue;
+    }
+    for (auto* channel : cg4->Channels()) {
+      if (auto* cn4 = dynamic_cast<Cn4Block*>(channel); cn4 != nullptr) {
+        cn4->UpdateDefaultX(buffer);
+      }
+    }
   }
 }
 
diff --git a/mdflib/src/dg4block.h b/mdflib/src/dg4block.h
index de40bd7..b2226ac 100644
--- a/mdflib/src/dg4block.h
+++ b/mdflib/src/dg4block.h
@@ -57,6 +57,7 @@ class Dg4Block : public DataListBlock, public IDataGroup {
 
   Hl4Block* CreateOrGetHl4();
   Dt4Block* CreateOrGetDt4(std::streambuf& buffer);
+  void UpdateReferences(std::streambuf& buffer) const;
   bool FinalizeDtBlocks(std::streambuf& buffer);
   bool FinalizeCgAndVlsdBlocks(std::streambuf& buffer, bool update_cg, bool update_vlsd);
 
@@ -72,7 +73,6 @@ class Dg4Block : public DataListBlock, public IDataGroup {
   uint64_t ReadRecordId(std::streambuf& buffer, uint64_t& record_id) const;
 
   void UpdateVlsdChannel(std::streambuf& buffer, const Cg4Block& cg4) const;
-  static void UpdateDefaultX(std::streambuf& buffer, Cn4Block& cn4);
 
 };
 
diff --git a/mdflib/src/ev4block.cpp b/mdflib/src/ev4block.cpp
index e8cd1a1..adfdc0b 100644
--- a/mdflib/src/ev4block.cpp
+++ b/mdflib/src/ev4block.cpp
@@ -192,8 +192,8 @@ uint64_t Ev4Block::Write(std::streambuf& buffer) {
   link_list_[kIndexRange] = range_event_ != nullptr ? range_event_->Index() : 0;
   for (size_t index_m = 0; index_m < length_m_; ++index_m) {
     const auto index = 5 + index_m;
-    const auto *block = reinterpret_cast<const MdfBlock *>(scope_list_[index_m]);
-    link_list_[index] = block != nullptr ? block->FilePosition() : 0;
+    const auto *block = scope_list_[index_m];
+    link_list_[index] = block != nullptr ? block->Index() : 0;
   }
   for (size_t index_n = 0; index_n < length_n_; ++index_n) {
     const auto index = 5 + length_m_ + index_n;
@@ -223,6 +223,22 @@ uint64_t Ev4Block::Write(std::streambuf& buffer) {
   return bytes;
 }
 
+void Ev4Block::UpdateReferences(std::streambuf& buffer) {
+  if (parent_event_ != nullptr) {
+    UpdateLink(buffer, kIndexParent, parent_event_->Index());
+  }
+  if (range_event_ != nullptr) {
+    UpdateLink(buffer, kIndexRange, range_event_->Index());
+  }
+  // Scopes may not be added after the block has been written
+  for (size_t index_m = 0; index_m < length_m_ && index_m < scope_list_.size();
+       ++index_m) {
+    if (const auto *block = scope_list_[index_m]; block != nullptr) {
+      UpdateLink(buffer, kIndexScope + index_m, block->Index());
+    }
+  }
+}
+
 int64_t Ev4Block::Index() const { return FilePosition(); }
 
 void Ev4Block::Name(const std::string &name) { name_ = name; }
@@ -281,13 +297,13 @@ void Ev4Block::RangeEvent(const IEvent *range_event) {
 
 const IEvent *Ev4Block::RangeEvent() const { return range_event_; }
 
-void Ev4Block::AddScope(const void *scope) {
+void Ev4Block::AddScope(const IBlock *scope) {
   if (scope != nullptr) {
     scope_list_.push_back(scope);
   }
 }
 
-const std::vector<const void *> &Ev4Block::Scopes() const {
+const std::vector<const IBlock *> &Ev4Block::Scopes() const {
   return scope_list_;
 }
 
@@ -316,7 +332,8 @@ void Ev4Block::FindReferencedBlocks(const Hd4Block &hd4) {
   for (size_t index_m = 0; index_m < length_m_; ++index_m) {
     const auto index = 5 + index_m;
     if (index < link_list_.size()) {
-      scope_list_.push_back(hd4.Find(Link(index)));
+      scope_list_.push_back(
+          dynamic_cast<const IBlock *>(hd4.Find(Link(index))));
     }
   }
 
diff --git a/mdflib/src/ev4block.h b/mdflib/src/ev4block.h
index 6b5867b..ee29d2a 100644
--- a/mdflib/src/ev4block.h
+++ b/mdflib/src/ev4block.h
@@ -19,6 +19,9 @@ class Ev4Block : public MdfBlock, public IEvent {
   uint64_t Write(std::streambuf& buffer) override;
   void FindReferencedBlocks(const Hd4Block &hd4);
 
+  /** \brief Updates the event and scope links when the blocks are written. */
+  void UpdateReferences(std::streambuf& buffer);
+
   [[nodiscard]] int64_t Index() const override;
   [[nodiscard]] std::string BlockType() const override {
     return MdfBlock::BlockType();
@@ -56,8 +59,8 @@ class Ev4Block : public MdfBlock, public IEvent {
   void RangeEvent(const IEvent *range_event) override;
   [[nodiscard]] const IEvent *RangeEvent() const override;
 
-  void AddScope(const void *scope) override;
-  [[nodiscard]] const std::vector<const void *> &Scopes() const override;
+  void AddScope(const IBlock *scope) override;
+  [[nodiscard]] const std::vector<const IBlock *> &Scopes() const override;
 
   void AddAttachment(const IAttachment *attachment) override;
   [[nodiscard]] const std::vector<const IAttachment *> &Attachments()
@@ -80,7 +83,7 @@ class Ev4Block : public MdfBlock, public IEvent {
 
   const IEvent *parent_event_ = nullptr;
   const IEvent *range_event_ = nullptr;
-  std::vector<const void *> scope_list_;  ///< List of MdfBlock pointers
+  std::vector<const IBlock *> scope_list_;  ///< List of CG/CN blocks
   std::vector<const IAttachment *> attachment_list_;
 
   std::string name_;
diff --git a/mdflib/src/hd4block.cpp b/mdflib/src/hd4block.cpp
index d325fea..a6d463a 100644
--- a/mdflib/src/hd4block.cpp
+++ b/mdflib/src/hd4block.cpp
@@ -543,6 +543,24 @@ uint64_t Hd4Block::Write(std::streambuf& buffer) {
   // in these cases.
   WriteLink4List(buffer, dg_list_, kIndexDg,
        UpdateOption::DoUpdateAllBlocks);  // Always rewrite last DG block
+
+  // The references may point to blocks that was written after the referring
+  // block.
+  for (auto& ch4 : ch_list_) {
+    if (ch4) {
+      ch4->UpdateReferences(buffer);
+    }
+  }
+  for (auto& ev4 : ev_list_) {
+    if (ev4) {
+      ev4->UpdateReferences(buffer);
+    }
+  }
+  for (const auto& dg4 : dg_list_) {
+    if (dg4) {
+      dg4->UpdateReferences(buffer);
+    }
+  }
   return bytes;
 }
 
-- 
2.43.0


From b15f911e0d4609225ed9893f068c5e71b9d900f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:45 +0000
Subject: [PATCH 34/44] fix: references of a copied conversion were lost

---
 mdflib/src/cc4block.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/cc4block.cpp b/mdflib/src/cc4block.cpp
index 99f43bf..d409914 100644
--- a/mdflib/src/cc4block.cpp
+++ b/mdflib/src/cc4block.cpp
@@ -566,9 +566,10 @@ void Cc4Block::CopyFrom(const IChannelConversion& source) {
 
     for (const auto& source_ref : cc4->ref_list_) {
       if (!source_ref) {
+        ref_list_.emplace_back(); // Keep the order of the references
         continue;
       }
-      if (source_ref->BlockType() != "TX") {
+      if (source_ref->BlockType() == "TX") {
         const auto* source_tx4 = dynamic_cast<const Tx4Block*>(source_ref.get());
         if (auto tx4_block = std::make_unique<Tx4Block>();
             tx4_block && source_tx4 != nullptr) {
-- 
2.43.0


From 8f4da2091c30293c905de17beb148a6e547e76c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:45 +0000
Subject: [PATCH 35/44] fix: sorting lost the length channel of MLSD channels
 and changed master values

---
 mdflib/src/cg4block.cpp | 20 ++++++++++++--------
 mdflib/src/cn4block.h   |  1 +
 mdflib/src/mdftask.cpp  | 28 ++++++++++++++++++++++++++++
 3 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/mdflib/src/cg4block.cpp b/mdflib/src/cg4block.cpp
index 04813ab..09296d5 100644
--- a/mdflib/src/cg4block.cpp
+++ b/mdflib/src/cg4block.cpp
@@ -251,14 +251,18 @@ uint64_t Cg4Block::Write(std::streambuf& buffer) {
     // Must scan through the channels and detect if any MLSD channel exist
     // and update its signal index. First need to find the length channel
     // block position. Then set the signal data index to that value
-    const auto* data_length = GetChannel(".DataLength");
-    if (data_length != nullptr) {
-      const auto cn_list = Channels(); // This list include the composite channels
-      const auto block_position = data_length->Index();
-      for (auto* channel : cn_list) {
-        if (channel != nullptr && channel->Type() == ChannelType::MaxLength) {
-          dynamic_cast<Cn4Block*>(channel)->UpdateDataLink(buffer, block_position);
-        }
+    const IChannel* data_length = GetChannel(".DataLength");
+    const auto cn_list = Channels(); // This list include the composite channels
+    for (auto* channel : cn_list) {
+      if (channel == nullptr || channel->Type() != ChannelType::MaxLength) {
+        continue;
+      }
+      auto* cn4 = dynamic_cast<Cn4Block*>(channel);
+      // The length channel may be known otherwise search on its name
+      const IChannel* length_channel = cn4->MlsdChannel() != nullptr ?
+        cn4->MlsdChannel() : data_length;
+      if (length_channel != nullptr) {
+        cn4->UpdateDataLink(buffer, length_channel->Index());
       }
     }
 
diff --git a/mdflib/src/cn4block.h b/mdflib/src/cn4block.h
index 3415454..dfe2efa 100644
--- a/mdflib/src/cn4block.h
+++ b/mdflib/src/cn4block.h
@@ -138,6 +138,7 @@ class Cn4Block : public DataListBlock, public IChannel {
   void MlsdChannel(const Cn4Block* channel) const {
     mlsd_channel_ = channel;
   }
+  [[nodiscard]] const Cn4Block* MlsdChannel() const { return mlsd_channel_; }
 
   uint64_t WriteSdSample(const std::vector<uint8_t>& buffer) const;
   [[nodiscard]] IChannelArray *ChannelArray(size_t index) const override;
diff --git a/mdflib/src/mdftask.cpp b/mdflib/src/mdftask.cpp
index 5c4c12b..a398c40 100644
--- a/mdflib/src/mdftask.cpp
+++ b/mdflib/src/mdftask.cpp
@@ -5,7 +5,9 @@
 
 #include "mdf/mdftask.h"
 
+#include <algorithm>
 #include <filesystem>
+#include <iterator>
 #include <sstream>
 
 #include "mdf/fhcomment.h"
@@ -15,6 +17,7 @@
 #include "mdf/mdffactory.h"
 #include "mdf/mdflogstream.h"
 
+#include "cn4block.h"
 #include "sortingconfigadapter.h"
 
 using namespace std::filesystem;
@@ -283,6 +286,31 @@ IChannelGroup* MdfTask::CopyChannelConfig(const IChannelGroup& source_cg,
     }
     dest_cn->CopyConfigFrom(*source_cn);
   }
+
+  // The records are copied as they are, so the master value must not be
+  // calculated. Restore the references between the channels (MLSD length).
+  const auto source_list = source_cg.Channels();
+  const auto dest_list = dest_cg->Channels();
+  if (source_list.size() != dest_list.size()) {
+    throw std::logic_error("Failed to copy all channels.");
+  }
+  for (size_t index = 0; index < source_list.size(); ++index) {
+    dest_list[index]->CalculateMasterTime(false);
+    const auto* source_cn4 =
+        dynamic_cast<const detail::Cn4Block*>(source_list[index]);
+    const auto* dest_cn4 =
+        dynamic_cast<const detail::Cn4Block*>(dest_list[index]);
+    if (source_cn4 == nullptr || dest_cn4 == nullptr ||
+        source_cn4->MlsdChannel() == nullptr) {
+      continue;
+    }
+    const auto itr = std::find(source_list.cbegin(), source_list.cend(),
+                               source_cn4->MlsdChannel());
+    if (itr != source_list.cend()) {
+      dest_cn4->MlsdChannel(dynamic_cast<const detail::Cn4Block*>(
+          dest_list[std::distance(source_list.cbegin(), itr)]));
+    }
+  }
   return dest_cg;
 }
 
-- 
2.43.0


From 61b3ee1e0e0e0e08c976c5af70f4b8be55f43d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:45 +0000
Subject: [PATCH 36/44] fix: sorting lost variable length data, failed on files
 without data and broke MDF 3 files

---
 include/mdf/samplerecordobserver.h |  4 ++-
 mdflib/src/copysampleobserver.cpp  | 10 ++++++
 mdflib/src/copysampleobserver.h    |  2 ++
 mdflib/src/sortingtask.cpp         | 51 ++++++++++++++++++++++++++++--
 mdflib/src/sortingtask.h           |  2 ++
 5 files changed, 65 insertions(+), 4 deletions(-)

diff --git a/include/mdf/samplerecordobserver.h b/include/mdf/samplerecordobserver.h
index 8d6c02e..fe6ce6b 100644
--- a/include/mdf/samplerecordobserver.h
+++ b/include/mdf/samplerecordobserver.h
@@ -31,6 +31,9 @@ public:
     return channel_group_;
   };
 
+ protected:
+  virtual void HandleSample();
+
  private:
 
   const IChannelGroup& channel_group_;
@@ -41,7 +44,6 @@ public:
   IChannel* time_channel_ = nullptr;
   uint64_t sample_time_ = 0;
 
-  void HandleSample();
 };
 
 }  // namespace mdf
diff --git a/mdflib/src/copysampleobserver.cpp b/mdflib/src/copysampleobserver.cpp
index 3317182..d1e9c33 100644
--- a/mdflib/src/copysampleobserver.cpp
+++ b/mdflib/src/copysampleobserver.cpp
@@ -24,9 +24,19 @@ void CopySampleObserver::OnSampleRecord() {
    SampleRecord record;
    GetSampleRecord(record);
    record.record_id = dest_channel_group_.RecordId();
+   // The variable length data is copied separately as the record only holds
+   // the offset to the data.
+   record.vlsd_data = false;
+   record.vlsd_buffer.clear();
    uint64_t sample_time = record.timestamp;
    writer_.AddSample(dest_data_group_, dest_channel_group_, sample_time,
                                    std::move(record));
 }
 
+void CopySampleObserver::HandleSample() {
+  // Every record is copied, independent of how any variable length data is
+  // stored.
+  OnSampleRecord();
+}
+
 } // mdf
\ No newline at end of file
diff --git a/mdflib/src/copysampleobserver.h b/mdflib/src/copysampleobserver.h
index 9058d86..67e9f53 100644
--- a/mdflib/src/copysampleobserver.h
+++ b/mdflib/src/copysampleobserver.h
@@ -20,6 +20,8 @@ public:
                      const IChannelGroup& dest_channel_group);
 
   void OnSampleRecord() override;
+protected:
+  void HandleSample() override;
 private:
   MdfWriter& writer_;
   const IDataGroup& dest_data_group_;
diff --git a/mdflib/src/sortingtask.cpp b/mdflib/src/sortingtask.cpp
index c1ded64..e7506cf 100644
--- a/mdflib/src/sortingtask.cpp
+++ b/mdflib/src/sortingtask.cpp
@@ -6,12 +6,14 @@
 #include "sortingtask.h"
 
 #include <exception>
+#include <functional>
 #include <filesystem>
 #include <iostream>
 #include <sstream>
 #include <memory>
 #include <deque>
 
+#include "cn4block.h"
 #include "copysampleobserver.h"
 #include "mdf/dgcomment.h"
 #include "mdf/ichannelgroup.h"
@@ -62,6 +64,10 @@ void SortingTask::SortFile() {
     if (!reader_ || !writer_) {
       throw std::runtime_error("Reader or writer is not initialized.");
     }
+    if (const MdfFile* source_file = reader_->GetFile();
+        source_file == nullptr || !source_file->IsMdf4()) {
+      throw std::runtime_error("Only MDF 4 files can be sorted.");
+    }
     writer_->CalculateBitAndByteOffsets(false);
     CopyMainConfig();
 
@@ -83,6 +89,7 @@ void SortingTask::SortFile() {
         continue;
       }
       std::deque<std::unique_ptr<CopySampleObserver>> observer_list;
+      std::vector<std::pair<const IChannelGroup*, IChannelGroup*>> group_list;
 
       const auto source_cg_list = source_dg->ChannelGroups();
       for (const IChannelGroup* source_cg : source_cg_list) {
@@ -119,6 +126,7 @@ void SortingTask::SortFile() {
             "Failed to copy the channel group configuration. Channel Group: "
               + source_cg->Name());
         }
+        group_list.emplace_back(source_cg, dest_cg);
         if (source_cg->NofSamples() > 0) {
           observer_list.push_back(std::make_unique<CopySampleObserver>(
             *source_dg, *source_cg,
@@ -133,7 +141,13 @@ void SortingTask::SortFile() {
           "Failed to initialize the measurement. File: " + TempFile());
       }
       writer_->StartMeasurement(start_time_);
-      reader_->ReadData(*source_dg);
+      if (!reader_->ReadData(*source_dg)) {
+        throw std::runtime_error("Failed to read the data. File: "
+          + SourceFile());
+      }
+      for (const auto& [source_cg, dest_cg] : group_list) {
+        CopyVlsdData(*source_dg, *source_cg, *dest_cg);
+      }
       uint64_t stop_time = start_time_;
       for (auto& sample_observer : observer_list) {
         if (sample_observer && sample_observer->GetSampleTime() > stop_time) {
@@ -149,8 +163,12 @@ void SortingTask::SortFile() {
       }
 
     }
-
-
+    if (source_dg_list.empty() && !(writer_->InitMeasurement() &&
+                                    writer_->FinalizeMeasurement())) {
+      // No measurement to copy but the header information shall be copied.
+      throw std::runtime_error(
+        "Failed to save the configuration. File: " + TempFile());
+    }
 
   } catch (const std::exception& err) {
     std::ostringstream oss;
@@ -161,6 +179,33 @@ void SortingTask::SortFile() {
 
 }
 
+void SortingTask::CopyVlsdData(IDataGroup& source_dg,
+                               const IChannelGroup& source_cg,
+                               const IChannelGroup& dest_cg) {
+  const auto source_list = source_cg.Channels();
+  const auto dest_list = dest_cg.Channels();
+  for (size_t index = 0; index < source_list.size() && index < dest_list.size();
+       ++index) {
+    IChannel* source_cn = source_list[index];
+    const auto* dest_cn4 =
+        dynamic_cast<const detail::Cn4Block*>(dest_list[index]);
+    if (source_cn == nullptr || dest_cn4 == nullptr ||
+        source_cn->Type() != ChannelType::VariableLength) {
+      continue;
+    }
+    // Copy all variable length values in its stored order. This means that the
+    // offsets, stored in the records, still are valid.
+    std::function<void(uint64_t, const std::vector<uint8_t>&)> on_vlsd =
+        [&](uint64_t, const std::vector<uint8_t>& value) -> void {
+          dest_cn4->WriteSdSample(value);
+        };
+    if (!reader_->ReadVlsdData(source_dg, *source_cn, {}, on_vlsd)) {
+      throw std::runtime_error("Failed to read the variable length data. Channel: "
+        + source_cn->Name());
+    }
+  }
+}
+
 void SortingTask::ReadInData(IDataGroup& data_group, const IChannelGroup& channel_group) {
   if (!reader_) {
     throw std::runtime_error("Reader is not initialized.");
diff --git a/mdflib/src/sortingtask.h b/mdflib/src/sortingtask.h
index 66b676c..17ca024 100644
--- a/mdflib/src/sortingtask.h
+++ b/mdflib/src/sortingtask.h
@@ -22,6 +22,8 @@ private:
   ChannelObserverList observer_list_;
 
   void SortFile();
+  void CopyVlsdData(IDataGroup& source_dg, const IChannelGroup& source_cg,
+                    const IChannelGroup& dest_cg);
   void ReadInData(IDataGroup& data_group, const IChannelGroup& channel_group);
   void CopyData(const IChannelGroup& source_cg, const IChannelGroup& dest_cg);
 };
-- 
2.43.0


From 4b4d46ea8cefb53607d75127887872ce44ecd7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:17 +0000
Subject: [PATCH 37/44] fix: CSV export broke cells with quotes, files in the
 current directory and other file systems

---
 mdf2csv/src/csvwriter.cpp | 34 ++++++++++++++++++++++++++--------
 mdf2csv/src/csvwriter.h   |  1 +
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/mdf2csv/src/csvwriter.cpp b/mdf2csv/src/csvwriter.cpp
index bdb89af..2799e3a 100644
--- a/mdf2csv/src/csvwriter.cpp
+++ b/mdf2csv/src/csvwriter.cpp
@@ -24,7 +24,7 @@ CsvWriter::CsvWriter(const std::string& filename)
     temp_path.append(name_);
     temp_filename_ = temp_path.string();
 
-    if (!exists(parent_path_)) {
+    if (!parent_path_.empty() && !exists(parent_path_)) {
       create_directories(parent_path_);
     }
 
@@ -91,11 +91,11 @@ void CsvWriter::Convert(ChannelObserverList& observer_list) {
       if (count > 0) {
         file_ << delimiter_;
       }
-      file_ << "\"" << channel.Name();
+      std::string title = channel.Name();
       if (!unit.empty()) {
-        file_ << " [" << unit << "]";
+        title += " [" + unit + "]";
       }
-      file_ << "\"";
+      file_ << QuoteText(title);
       ++count;
     }
     file_ << std::endl;
@@ -117,7 +117,14 @@ void CsvWriter::Convert(ChannelObserverList& observer_list) {
       file_ << std::endl;
     }
     file_.close();
-    std::filesystem::rename(temp_filename_, dest_filename_);
+    std::error_code rename_error;
+    std::filesystem::rename(temp_filename_, dest_filename_, rename_error);
+    if (rename_error) {
+      // The temporary file may be located on another file system.
+      std::filesystem::copy_file(temp_filename_, dest_filename_,
+                                 copy_options::overwrite_existing);
+      std::filesystem::remove(temp_filename_);
+    }
   } catch (const std::exception& err) {
     MDF_ERROR() << "File save error. Error: " << err.what();
   }
@@ -134,13 +141,24 @@ void CsvWriter::Convert(ChannelObserverList& observer_list) {
 std::string CsvWriter::CsvText(std::string& csv_text) const {
   for (char input : csv_text) {
     if (input == '\"' || input == delimiter_ || isspace(input)) {
-      std::ostringstream temp;
-      temp << "\"" << csv_text << "\"";
-      return temp.str();
+      return QuoteText(csv_text);
     }
   }
 
   return csv_text;
 }
 
+std::string CsvWriter::QuoteText(const std::string& text) {
+  // A quote inside a quoted text is doubled.
+  std::string quoted("\"");
+  for (char input : text) {
+    if (input == '\"') {
+      quoted += '\"';
+    }
+    quoted += input;
+  }
+  quoted += '\"';
+  return quoted;
+}
+
 } // namespace mdf
\ No newline at end of file
diff --git a/mdf2csv/src/csvwriter.h b/mdf2csv/src/csvwriter.h
index 6ac2f87..dd25b5e 100644
--- a/mdf2csv/src/csvwriter.h
+++ b/mdf2csv/src/csvwriter.h
@@ -30,6 +30,7 @@ class CsvWriter final {
   char delimiter_ = ';';
 
   std::string CsvText(std::string& csv_text) const;
+  static std::string QuoteText(const std::string& text);
 };
 
 }  // namespace mdf
-- 
2.43.0


From 4a86d109a24023dec7c45cc52d3af5a008638ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:17 +0000
Subject: [PATCH 38/44] fix: CSV export dropped groups with equal names and
 misplaced files of later inputs

---
 mdf2csv/src/createfilelist.cpp | 21 +++++++++++++++++----
 mdf2csv/src/createfilelist.h   |  4 +++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/mdf2csv/src/createfilelist.cpp b/mdf2csv/src/createfilelist.cpp
index 3adf958..0b1afde 100644
--- a/mdf2csv/src/createfilelist.cpp
+++ b/mdf2csv/src/createfilelist.cpp
@@ -8,6 +8,7 @@
 #include <sstream>
 #include <cctype>
 #include <array>
+#include <set>
 #include <mdf/mdfreader.h>
 #include <mdf/mdflogstream.h>
 #include <mdf/idatagroup.h>
@@ -70,13 +71,15 @@ void CreateFileList::ConvertMdfFile(const std::string& file) {
   const auto& arguments = ProgramArgument::Instance();
   std::string filename;
   std::string stem;
+  // If no output directory is defined, the CSV files end up beside the file.
+  std::string output_path = output_path_;
 
   try {
     path fullname(file);
     filename = fullname.filename().string();
     stem = fullname.stem().string();
-    if (output_path_.empty()) {
-      output_path_ = fullname.parent_path().string();
+    if (output_path.empty()) {
+      output_path = fullname.parent_path().string();
     }
   } catch (const std::exception& err) {
     MDF_ERROR() << "Invalid file path. Error :" << err.what();
@@ -107,6 +110,7 @@ void CreateFileList::ConvertMdfFile(const std::string& file) {
     return;
   }
 
+  std::set<std::string> used_names; // CSV names already used for this file
   size_t measure_no = 0; // Used to set a unique CSV name.
   for (auto* dg_group : dg_list) {
     if (dg_group == nullptr) {
@@ -148,8 +152,8 @@ void CreateFileList::ConvertMdfFile(const std::string& file) {
       bool existing; // Check if CSV already exist
       std::string csv_file;
       try {
-        path fullname(output_path_);
-        fullname.append(StripName(csv_name.str()));
+        path fullname(output_path);
+        fullname.append(MakeUniqueName(StripName(csv_name.str()), used_names));
         fullname.concat(".csv");
         csv_file = fullname.string();
         existing = exists(csv_file);
@@ -217,6 +221,15 @@ void CreateFileList::ConvertMdfFile(const std::string& file) {
 
 }
 
+std::string CreateFileList::MakeUniqueName(const std::string& name,
+                                           std::set<std::string>& used_names) {
+  std::string unique_name = name;
+  for (size_t number = 2; !used_names.insert(unique_name).second; ++number) {
+    unique_name = name + "_" + std::to_string(number);
+  }
+  return unique_name;
+}
+
 std::string CreateFileList::StripName(const std::string& text) {
   std::ostringstream output;
   for (char input : text ) {
diff --git a/mdf2csv/src/createfilelist.h b/mdf2csv/src/createfilelist.h
index 5a7d9c3..d94d735 100644
--- a/mdf2csv/src/createfilelist.h
+++ b/mdf2csv/src/createfilelist.h
@@ -4,6 +4,7 @@
  */
 
 #pragma once
+#include <set>
 #include <string>
 #include <vector>
 namespace mdf {
@@ -41,7 +42,8 @@ class CreateFileList final {
   std::vector<std::string> files_;
   std::string output_path_;
 
-
+  static std::string MakeUniqueName(const std::string& name,
+                                    std::set<std::string>& used_names);
 };
 
 }  // namespace mdf
-- 
2.43.0


From 81ffa9770baaa31a2496a5065d98f1be2eeaab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:59 +0000
Subject: [PATCH 39/44] fix: decimal values in comments were rounded to six
 digits

---
 include/mdf/mdnumber.h   | 11 ++++++++++-
 include/mdf/mdproperty.h | 11 ++++++++++-
 mdflib/src/ixmlnode.h    |  3 +++
 mdflib/src/mdnumber.cpp  |  2 +-
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/mdf/mdnumber.h b/include/mdf/mdnumber.h
index f09c298..5d4aeb9 100644
--- a/include/mdf/mdnumber.h
+++ b/include/mdf/mdnumber.h
@@ -7,7 +7,9 @@
 
 #include <cstdint>
 #include <string>
+#include <limits>
 #include <sstream>
+#include <type_traits>
 #include <optional>
 
 #include "mdf/mdstandardattribute.h"
@@ -95,7 +97,14 @@ class MdNumber : public MdStandardAttribute {
 template <typename T>
 void MdNumber::Number(T value) {
   try {
-    number_ = std::to_string(value);
+    if constexpr (std::is_floating_point_v<T>) {
+      std::ostringstream temp;
+      temp.precision(std::numeric_limits<T>::max_digits10);
+      temp << value;
+      number_ = temp.str();
+    } else {
+      number_ = std::to_string(value);
+    }
   } catch (const std::exception&) {
     number_.clear();
     number_.shrink_to_fit();
diff --git a/include/mdf/mdproperty.h b/include/mdf/mdproperty.h
index c58d95d..9765c32 100644
--- a/include/mdf/mdproperty.h
+++ b/include/mdf/mdproperty.h
@@ -8,7 +8,9 @@
 #include <string_view>
 #include <string>
 #include <map>
+#include <limits>
 #include <sstream>
+#include <type_traits>
 
 #include "mdf/mdstandardattribute.h"
 
@@ -80,7 +82,14 @@ class MdProperty : public MdStandardAttribute {
 
 template <typename T>
 void MdProperty::Value(T value) {
-  value_ = std::to_string(value);
+  if constexpr (std::is_floating_point_v<T>) {
+    std::ostringstream temp;
+    temp.precision(std::numeric_limits<T>::max_digits10);
+    temp << value;
+    value_ = temp.str();
+  } else {
+    value_ = std::to_string(value);
+  }
 }
 
 template <>
diff --git a/mdflib/src/ixmlnode.h b/mdflib/src/ixmlnode.h
index 8a52ad3..090bdb0 100644
--- a/mdflib/src/ixmlnode.h
+++ b/mdflib/src/ixmlnode.h
@@ -275,6 +275,9 @@ inline std::string IXmlNode::Attribute(const std::string& key,
 template <typename T>
 void IXmlNode::SetAttribute(const std::string &key, const T &value) {
   std::ostringstream temp;
+  if constexpr (std::is_floating_point_v<T>) {
+    temp.precision(std::numeric_limits<T>::max_digits10);
+  }
   temp << value;
   attribute_list_.insert({key, temp.str()});
 }
diff --git a/mdflib/src/mdnumber.cpp b/mdflib/src/mdnumber.cpp
index bbb59f1..71dbe29 100644
--- a/mdflib/src/mdnumber.cpp
+++ b/mdflib/src/mdnumber.cpp
@@ -13,8 +13,8 @@ namespace mdf {
 
 MdNumber::MdNumber(double number)
 : MdStandardAttribute(),
-  number_(std::to_string(number)),
   data_type_(MdDataType::MdFloat) {
+  Number(number);
 }
 
 MdNumber::MdNumber(uint64_t number, MdDataType data_type)
-- 
2.43.0


From 5d4910c84c07798d0b24aeed84ade8cf5815b092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:59 +0000
Subject: [PATCH 40/44] fix: harmonised units, dimensions and computation
 methods lost names and exponents when read

---
 mdflib/src/hocompumethod.cpp       | 1 +
 mdflib/src/hophysicaldimension.cpp | 5 +++--
 mdflib/src/hounit.cpp              | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/hocompumethod.cpp b/mdflib/src/hocompumethod.cpp
index a5e7f65..2f88d75 100644
--- a/mdflib/src/hocompumethod.cpp
+++ b/mdflib/src/hocompumethod.cpp
@@ -140,6 +140,7 @@ void HoCompuMethod::ToXml(IXmlNode& root_node) const {
 }
 
 void HoCompuMethod::FromXml(const IXmlNode& root_node) {
+  HoNameDetails::FromXml(root_node);
   IXmlNode::ChildList node_list;
   root_node.GetChildList(node_list);
   for (const IXmlNode* node : node_list) {
diff --git a/mdflib/src/hophysicaldimension.cpp b/mdflib/src/hophysicaldimension.cpp
index 3b80fb5..f8e8b7a 100644
--- a/mdflib/src/hophysicaldimension.cpp
+++ b/mdflib/src/hophysicaldimension.cpp
@@ -104,6 +104,7 @@ void HoPhysicalDimension::ToXml(IXmlNode& root_node) const {
 }
 
 void HoPhysicalDimension::FromXml(const IXmlNode& dim_node) {
+  HoNameDetails::FromXml(dim_node);
   IXmlNode::ChildList node_list;
   dim_node.GetChildList(node_list);
   identity_ = dim_node.Attribute<std::string>("ID", "");
@@ -123,9 +124,9 @@ void HoPhysicalDimension::FromXml(const IXmlNode& dim_node) {
       current_exp_ = node->Value<double>();
     } else if (node->IsTagName("TEMPERATURE-EXP")) {
       temp_exp_ = node->Value<double>();
-    } else if (node->IsTagName("MOLAR-EXP")) {
+    } else if (node->IsTagName("MOLAR-AMOUNT-EXP")) {
       molar_exp_ = node->Value<double>();
-    } else if (node->IsTagName("LUMINOUS-EXP")) {
+    } else if (node->IsTagName("LUMINOUS-INTENSITY-EXP")) {
       luminous_exp_ = node->Value<double>();
     }
   }
diff --git a/mdflib/src/hounit.cpp b/mdflib/src/hounit.cpp
index bd39cd7..144e6b5 100644
--- a/mdflib/src/hounit.cpp
+++ b/mdflib/src/hounit.cpp
@@ -75,6 +75,7 @@ void HoUnit::ToXml(IXmlNode& units_node) const {
 void HoUnit::FromXml(const IXmlNode& unit_node) {
   identity_ = unit_node.Attribute<std::string>("ID", "");
 
+  HoNameDetails::FromXml(unit_node);
   IXmlNode::ChildList node_list;
   unit_node.GetChildList(node_list);
   for (const IXmlNode* node : node_list) {
-- 
2.43.0


From da6caebd4278570d127196be8f0ebe101262b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:59 +0000
Subject: [PATCH 41/44] fix: comments lost array indexes, merged sub-trees and
 default names, and repeated own attributes as custom ones

---
 mdflib/src/ccunit.cpp            |  1 +
 mdflib/src/hdcomment.cpp         |  1 +
 mdflib/src/mdalternativename.cpp |  3 ++-
 mdflib/src/mdlist.cpp            | 13 +++++++++++++
 mdflib/src/mdproperty.cpp        |  4 ++++
 mdflib/src/mdsyntax.cpp          |  2 ++
 mdflib/src/mdvariable.cpp        | 24 ++++++++----------------
 7 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/mdflib/src/ccunit.cpp b/mdflib/src/ccunit.cpp
index b5f067b..075af56 100644
--- a/mdflib/src/ccunit.cpp
+++ b/mdflib/src/ccunit.cpp
@@ -94,6 +94,7 @@ void CcUnit::FromXml(const std::string& xml_snippet) {
       }
       if (node->IsTagName("ho_unit")) {
         unit_ref_.MdStandardAttribute::FromXml(*node);
+        unit_ref_.CustomAttributes().erase("unit_ref");
         if (unit_ref_.Text(node->Attribute<std::string>("unit_ref", ""));
             unit_ref_.Text().empty() ) {
           unit_ref_.Text(node->Value<std::string>());
diff --git a/mdflib/src/hdcomment.cpp b/mdflib/src/hdcomment.cpp
index 135c385..8efb960 100644
--- a/mdflib/src/hdcomment.cpp
+++ b/mdflib/src/hdcomment.cpp
@@ -224,6 +224,7 @@ void HdComment::FromXml(const std::string& xml_snippet) {
           std::string name = const_node->Attribute<std::string>("name", "");
           MdString temp;
           temp.FromXml(*const_node);
+          temp.CustomAttributes().erase("name");
           temp.Text(name);
           AddConstant(temp, expression);
         }
diff --git a/mdflib/src/mdalternativename.cpp b/mdflib/src/mdalternativename.cpp
index a46bcec..8d96fef 100644
--- a/mdflib/src/mdalternativename.cpp
+++ b/mdflib/src/mdalternativename.cpp
@@ -13,7 +13,7 @@
 namespace mdf {
 
 bool MdAlternativeName::IsActive() const {
-  return !name_list_.empty() || !display_list_.empty() ||
+  return !default_name_.empty() || !name_list_.empty() || !display_list_.empty() ||
       !vendor_list_.empty() || !description_list_.empty();
 }
 
@@ -119,6 +119,7 @@ void MdAlternativeName::ToXml(IXmlNode& names_node) const {
 
 void MdAlternativeName::FromXml(const IXmlNode& names_node) {
   MdStandardAttribute::FromXml(names_node);
+  CustomAttributes().erase("name");
   default_name_ = names_node.Attribute<std::string>("name", "");
 
   IXmlNode::ChildList node_list;
diff --git a/mdflib/src/mdlist.cpp b/mdflib/src/mdlist.cpp
index ec479ca..362bd1b 100644
--- a/mdflib/src/mdlist.cpp
+++ b/mdflib/src/mdlist.cpp
@@ -49,6 +49,15 @@ void MdList::AddTree(MdList tree) {
     for (const auto& [prop_name, prop] : tree.Properties()) {
       tree_itr->second.AddProperty(prop);
     }
+    for (const auto& [sub_name, sub_tree] : tree.Trees()) {
+      tree_itr->second.AddTree(sub_tree);
+    }
+    for (const auto& [list_name, list] : tree.Lists()) {
+      tree_itr->second.AddList(list);
+    }
+    for (const auto& [enum_name, enumerate] : tree.Enumerates()) {
+      tree_itr->second.AddEnumerate(enumerate);
+    }
     return;
   }
   tree_list_.emplace(tree.Name(), std::move(tree));
@@ -266,6 +275,8 @@ void MdList::FromXml(const IXmlNode& root_node) {
   const std::string tag_name = root_node.TagName();
   if (tag_name != "common_properties" && tag_name != "li") {
     MdStandardAttribute::FromXml(root_node);
+    CustomAttributes().erase("name");
+    CustomAttributes().erase("desc");
     name_ = root_node.Attribute<std::string>("name", "");
     desc_ = root_node.Attribute<std::string>("desc", "");
   }
@@ -286,6 +297,8 @@ void MdList::FromXml(const IXmlNode& root_node) {
     } else if (node->IsTagName("list")) {
       MdList list;
       list.MdStandardAttribute::FromXml(*node);
+      list.CustomAttributes().erase("name");
+      list.CustomAttributes().erase("desc");
       list.Name(node->Attribute<std::string>("name", "") );
       list.Description( node->Attribute<std::string>("desc", ""));
 
diff --git a/mdflib/src/mdproperty.cpp b/mdflib/src/mdproperty.cpp
index 60dcc30..15d8020 100644
--- a/mdflib/src/mdproperty.cpp
+++ b/mdflib/src/mdproperty.cpp
@@ -141,6 +141,9 @@ void MdProperty::Name(std::string name) {
 
   void MdProperty::FromXml(const IXmlNode& prop_node) {
     MdStandardAttribute::FromXml(prop_node);
+    for (const char* key : {"name", "desc", "type", "ro", "unit", "unit_ref"}) {
+      CustomAttributes().erase(key);
+    }
     name_ = prop_node.Attribute<std::string>("name", "");
     desc_ = prop_node.Attribute<std::string>("desc", "");
     const std::string type = prop_node.Attribute<std::string>("type", "");
@@ -213,6 +216,7 @@ void MdProperty::Name(std::string name) {
     try {
       switch (DataType()) {
         case MdDataType::MdInteger:
+        case MdDataType::MdHex:
           if (value_.size() > 2 && value_.substr(0,2) == "0x" ) {
             // HEX decode
             const auto hex_value = value_.substr(2);
diff --git a/mdflib/src/mdsyntax.cpp b/mdflib/src/mdsyntax.cpp
index dfb6f57..767979c 100644
--- a/mdflib/src/mdsyntax.cpp
+++ b/mdflib/src/mdsyntax.cpp
@@ -53,6 +53,8 @@ void MdSyntax::ToXml(IXmlNode& root_node, const std::string& tag_name) const {
 
 void MdSyntax::FromXml(const IXmlNode& syntax_node) {
   MdString::FromXml(syntax_node);
+  CustomAttributes().erase("version");
+  CustomAttributes().erase("source");
   version_ = syntax_node.Attribute<std::string>("version", "");
   source_ = syntax_node.Attribute<std::string>("source", "");
 
diff --git a/mdflib/src/mdvariable.cpp b/mdflib/src/mdvariable.cpp
index 7494731..318fe6f 100644
--- a/mdflib/src/mdvariable.cpp
+++ b/mdflib/src/mdvariable.cpp
@@ -119,7 +119,7 @@ void MdVariable::ToXml(IXmlNode& root_node, const std::string& tag_name) const {
       }
       idx << index;
     }
-    node.SetAttribute("idx_list_pattern", idx.str());
+    node.SetAttribute("idx", idx.str());
   }
 
   if (raw_) {
@@ -133,6 +133,9 @@ void MdVariable::ToXml(IXmlNode& root_node, const std::string& tag_name) const {
 
 void MdVariable::FromXml(const IXmlNode& var_node) {
   MdString::FromXml(var_node);
+  for (const char* key : {"cn", "cs", "cp", "gn", "gs", "gp", "idx", "raw"}) {
+    CustomAttributes().erase(key);
+  }
   cn_ = var_node.Attribute<std::string>("cn", "");
   cs_ = var_node.Attribute<std::string>("cs", "");
   cp_ = var_node.Attribute<std::string>("cp", "");
@@ -140,21 +143,10 @@ void MdVariable::FromXml(const IXmlNode& var_node) {
   gs_ = var_node.Attribute<std::string>("gs", "");
   gp_ = var_node.Attribute<std::string>("gp", "");
   const std::string idx_list = var_node.Attribute<std::string>("idx", "");
-  try {
-    std::ostringstream temp;
-    for (const char input : idx_list) {
-      if (iswspace(input)) {
-        const uint64_t idx = std::stoull(temp.str());
-        AddArrayIndex(idx);
-        temp.clear();
-        temp.str("");
-      }
-    }
-    if (!temp.str().empty()) {
-      const uint64_t idx = std::stoull(temp.str());
-      AddArrayIndex(idx);
-    }
-  } catch (const std::exception& ) {}
+  std::istringstream idx_stream(idx_list);
+  for (uint64_t idx = 0; idx_stream >> idx; ) {
+    AddArrayIndex(idx);
+  }
   raw_ = var_node.Attribute<bool>("raw", false);
 }
 
-- 
2.43.0


From bf2e97010d18821b10d3aa18d458008eed62f494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:14 +0000
Subject: [PATCH 42/44] fix: references of a channel array to blocks written
 after it were stored as nil

---
 mdflib/src/ca4block.cpp | 107 ++++++++++++++++++++--------------------
 mdflib/src/ca4block.h   |   3 ++
 mdflib/src/dg4block.cpp |   6 +++
 3 files changed, 62 insertions(+), 54 deletions(-)

diff --git a/mdflib/src/ca4block.cpp b/mdflib/src/ca4block.cpp
index fe6234c..80c5e9b 100644
--- a/mdflib/src/ca4block.cpp
+++ b/mdflib/src/ca4block.cpp
@@ -443,48 +443,7 @@ uint64_t Ca4Block::Write(std::streambuf& buffer) {
   }
 
   link_list_.resize(nof_links, 0);
-
-  size_t link_index = kIndexArray;
-  if (Storage() == ArrayStorage::DgTemplate) {
-    for (size_t index = 0; index < ProductOfArray(); ++index) {
-      const int64_t data_position = index < data_links_.size() ?
-                                        data_links_[index] : 0;
-      UpdateLink(buffer, link_index, data_position);
-      ++link_index;
-    }
-  }
-  if ((Flags() & CaFlag::DynamicSize) != 0) {
-    link_index += WriteReferences(buffer, dynamic_size_list_,
-                                  Dimensions(), link_index);
-  }
-  if ((Flags() & CaFlag::InputQuantity) != 0) {
-    link_index += WriteReferences(buffer, input_quantity_list_,
-                                  Dimensions(), link_index);
-  }
-  if ((Flags() & CaFlag::OutputQuantity) != 0) {
-    WriteReference(buffer, output_quantity_, link_index);
-    link_index += 3;
-  }
-  if ((Flags() & CaFlag::ComparisonQuantity) != 0) {
-    WriteReference(buffer, comparison_quantity_, link_index);
-    link_index += 3;
-  }
-  if ((Flags() & CaFlag::Axis) != 0) {
-    for (size_t index = 0; index < Dimensions(); ++index) {
-      if (index < axis_conversion_list_.size()) {
-        const auto* cc_block = axis_conversion_list_[index];
-        const int64_t axis_position = cc_block != nullptr ? cc_block->Index() : 0;
-        UpdateLink(buffer,link_index,axis_position);
-      } else {
-        UpdateLink(buffer,link_index,0);
-      }
-      ++link_index;
-    }
-  }
-  if ((Flags() & CaFlag::Axis) != 0 && (Flags() & CaFlag::FixedAxis) == 0) {
-    link_index += WriteReferences(buffer, axis_list_,
-                                  Dimensions(), link_index);
-  }
+  UpdateReferences(buffer);
 
   uint64_t bytes = MdfBlock::Write(buffer);
   bytes += WriteNumber(buffer, type_);
@@ -525,6 +484,49 @@ uint64_t Ca4Block::Write(std::streambuf& buffer) {
   return bytes;
 }
 
+void Ca4Block::UpdateReferences(std::streambuf& buffer) {
+  size_t link_index = kIndexArray;
+  if (Storage() == ArrayStorage::DgTemplate) {
+    for (size_t index = 0; index < ProductOfArray(); ++index) {
+      if (index < data_links_.size()) {
+        UpdateLink(buffer, link_index, data_links_[index]);
+      }
+      ++link_index;
+    }
+  }
+  if ((Flags() & CaFlag::DynamicSize) != 0) {
+    link_index += WriteReferences(buffer, dynamic_size_list_,
+                                  Dimensions(), link_index);
+  }
+  if ((Flags() & CaFlag::InputQuantity) != 0) {
+    link_index += WriteReferences(buffer, input_quantity_list_,
+                                  Dimensions(), link_index);
+  }
+  if ((Flags() & CaFlag::OutputQuantity) != 0) {
+    WriteReference(buffer, output_quantity_, link_index);
+    link_index += 3;
+  }
+  if ((Flags() & CaFlag::ComparisonQuantity) != 0) {
+    WriteReference(buffer, comparison_quantity_, link_index);
+    link_index += 3;
+  }
+  if ((Flags() & CaFlag::Axis) != 0) {
+    for (size_t index = 0; index < Dimensions(); ++index) {
+      if (index < axis_conversion_list_.size()) {
+        const auto* cc_block = axis_conversion_list_[index];
+        if (cc_block != nullptr) {
+          UpdateLink(buffer, link_index, cc_block->Index());
+        }
+      }
+      ++link_index;
+    }
+  }
+  if ((Flags() & CaFlag::Axis) != 0 && (Flags() & CaFlag::FixedAxis) == 0) {
+    link_index += WriteReferences(buffer, axis_list_,
+                                  Dimensions(), link_index);
+  }
+}
+
 int64_t Ca4Block::Index() const { return FilePosition(); }
 
 void Ca4Block::Type(ArrayType type) { type_ = static_cast<uint8_t>(type); }
@@ -666,12 +668,15 @@ CaTripleReference Ca4Block::ReadReference(size_t index) const {
 void Ca4Block::WriteReference(std::streambuf& buffer,
                     const CaTripleReference& ref, size_t start_index) {
 
-  UpdateLink(buffer, start_index,
-             ref.DataGroup != nullptr ? ref.DataGroup->Index() : 0 );
-  UpdateLink(buffer, start_index + 1,
-             ref.ChannelGroup != nullptr ? ref.ChannelGroup->Index() : 0 );
-  UpdateLink(buffer, start_index + 2,
-             ref.Channel != nullptr ? ref.Channel->Index() : 0 );
+  if (ref.DataGroup != nullptr) {
+    UpdateLink(buffer, start_index, ref.DataGroup->Index());
+  }
+  if (ref.ChannelGroup != nullptr) {
+    UpdateLink(buffer, start_index + 1, ref.ChannelGroup->Index());
+  }
+  if (ref.Channel != nullptr) {
+    UpdateLink(buffer, start_index + 2, ref.Channel->Index());
+  }
 }
 
 size_t Ca4Block::WriteReferences(std::streambuf& buffer,
@@ -683,12 +688,6 @@ size_t Ca4Block::WriteReferences(std::streambuf& buffer,
     if (index < list.size()) {
       const auto& ref = list[index];
       WriteReference(buffer, ref, start_index + nof_links);
-      UpdateLink(buffer, start_index + nof_links,
-                 ref.DataGroup != nullptr ? ref.DataGroup->Index() : 0 );
-    } else {
-      UpdateLink(buffer, start_index + nof_links,0 );
-      UpdateLink(buffer, start_index + nof_links + 1, 0 );
-      UpdateLink(buffer, start_index + nof_links + 2, 0 );
     }
     nof_links += 3;
   }
diff --git a/mdflib/src/ca4block.h b/mdflib/src/ca4block.h
index a3aaf2d..7fd8353 100644
--- a/mdflib/src/ca4block.h
+++ b/mdflib/src/ca4block.h
@@ -64,6 +64,9 @@ class Ca4Block : public MdfBlock, public IChannelArray {
 
   uint64_t Write(std::streambuf& buffer) override;
 
+  /** \brief Updates links to blocks that were written after this block. */
+  void UpdateReferences(std::streambuf& buffer);
+
   void SetParentChannel(const Cn4Block* parent);
   void PrepareForWriting();
   void CopyFrom(const IChannelArray& source) override;
diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index d775df8..555ed29 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <map>
 
+#include "ca4block.h"
 #include "dl4block.h"
 #include "dt4block.h"
 #include "dz4block.h"
@@ -601,6 +602,11 @@ void Dg4Block::UpdateReferences(std::streambuf& buffer) const {
     for (auto* channel : cg4->Channels()) {
       if (auto* cn4 = dynamic_cast<Cn4Block*>(channel); cn4 != nullptr) {
         cn4->UpdateDefaultX(buffer);
+        for (auto* array : cn4->ChannelArrays()) {
+          if (auto* ca4 = dynamic_cast<Ca4Block*>(array); ca4 != nullptr) {
+            ca4->UpdateReferences(buffer);
+          }
+        }
       }
     }
   }
-- 
2.43.0


From 5e014151917d3b0288bf6587d2a805e83682c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:17 +0000
Subject: [PATCH 43/44] fix: sorting a file re-read the source of an empty
 embedded attachment

---
 mdflib/src/at4block.cpp | 3 ++-
 mdflib/src/at4block.h   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/at4block.cpp b/mdflib/src/at4block.cpp
index 8599de7..b83737b 100644
--- a/mdflib/src/at4block.cpp
+++ b/mdflib/src/at4block.cpp
@@ -169,7 +169,7 @@ uint64_t At4Block::Write(std::streambuf& buffer) {
   if (update) {
     return block_size_;
   }
-  if (original_size_ == 0) {
+  if (original_size_ == 0 && !copied_) {
     try {
       path filename = u8path(filename_);
       if (!fs::exists(filename) && IsEmbedded()) {
@@ -339,6 +339,7 @@ void At4Block::CopyFrom(const IAttachment& source, MdfReader& reader) {
     md5_ = at4.md5_;
     filename_ = at4.filename_;
     file_type_ = at4.file_type_;
+    copied_ = true;
     if (at4.data_position_ > 0 && at4.nof_bytes_ > 0) {
       reader.ReadInDataBuffer(at4.data_position_, at4.nof_bytes_, data_buffer_);
     }
diff --git a/mdflib/src/at4block.h b/mdflib/src/at4block.h
index c56cfda..176991c 100644
--- a/mdflib/src/at4block.h
+++ b/mdflib/src/at4block.h
@@ -80,6 +80,7 @@ class At4Block : public MdfBlock, public IAttachment {
   std::string file_type_;
 
   std::vector<uint8_t> data_buffer_; ///< Data buffer used when copying
+  bool copied_ = false; ///< The data was copied from another file
 
 
 };
-- 
2.43.0


From c85dcc979b0199b061ee9d5d6f7e9f66470dab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:32 +0000
Subject: [PATCH 44/44] fix: do not read a big endian value from a buffer that
 went out of scope

---
 mdflib/src/bigbuffer.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/bigbuffer.h b/mdflib/src/bigbuffer.h
index 4b1fdef..fbe3a5b 100644
--- a/mdflib/src/bigbuffer.h
+++ b/mdflib/src/bigbuffer.h
@@ -67,15 +67,17 @@ size_t BigBuffer<T>::size() const {
 
 template <typename T>
 T BigBuffer<T>::value() const {
-  const T* val = reinterpret_cast<const T*>(buffer_.data());
+  T val = {};
   if (IsLittleEndian()) { // Computer uses little endian
     std::array<uint8_t, sizeof(T)> temp = {0};
     for (size_t index = sizeof(T); index > 0; --index) {
       temp[sizeof(T) - index] = buffer_[index - 1];
     }
-    val = reinterpret_cast<const T*>(temp.data());
+    memcpy(&val, temp.data(), sizeof(T));
+  } else {
+    memcpy(&val, buffer_.data(), sizeof(T));
   }
-  return *val;
+  return val;
 }
 
 }  // namespace mdf
-- 
2.43.0

