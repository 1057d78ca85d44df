From 859bf2060390f2c72325ab61da5e23beab077130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 01/16] fix: a closed chained stream without bytes has no
 fragments

num_fragments() is 0 for it, but SegmentForEachFragment called the callback once
with the head block, whose size is uninitialised when nothing was ever written.
---
 src/common/chained_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/chained_stream.cpp b/src/common/chained_stream.cpp
index 4a7fb92..0c40af4 100644
--- a/src/common/chained_stream.cpp
+++ b/src/common/chained_stream.cpp
@@ -72,7 +72,7 @@ bool ChainedStream::SegmentForEachFragment(Callback callback) const noexcept {
   assert(output_closed_);
   assert(fragment_index_ >= 0 && fragment_index_ <= num_blocks_);
 
-  if (num_blocks_ == 0) {
+  if (num_bytes_written_ == 0) {
     return true;
   }
 
-- 
2.43.0


From df93f3a74bb4b9bf813a9910924992fc8befb324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 02/16] fix: count a report request's header and metrics
 fragments

ReportRequest::num_fragments counted the fragments of the spans only, while
ForEachFragment also enumerates the header and, when spans were dropped, the
metrics: one or two fragments more than announced.
---
 src/recorder/serialization/report_request.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/recorder/serialization/report_request.cpp b/src/recorder/serialization/report_request.cpp
index bfb9e70..3e80096 100644
--- a/src/recorder/serialization/report_request.cpp
+++ b/src/recorder/serialization/report_request.cpp
@@ -8,6 +8,7 @@ ReportRequest::ReportRequest(std::shared_ptr<const std::string> header,
                              int num_dropped_spans)
     : header_{std::move(header)} {
   num_bytes_ = static_cast<int>(header_->size());
+  num_fragments_ = 1;
   if (num_dropped_spans == 0) {
     return;
   }
@@ -16,6 +17,7 @@ ReportRequest::ReportRequest(std::shared_ptr<const std::string> header,
   metrics->set_num_dropped_spans(num_dropped_spans);
   metrics_fragment_ = metrics->MakeFragment();
   num_bytes_ += metrics_fragment_.second;
+  ++num_fragments_;
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From adc5be5664050dabbdda077e40c2069d80d93f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:53 +0000
Subject: [PATCH 03/16] fix: base64 decode reads outside its lookup table for
 bytes >= 0x80

The bytes of the text are char, which is signed here: static_cast<uint32_t> of a
negative one indexes far behind the 256-entry table.
---
 3rd_party/base64/src/base64.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/3rd_party/base64/src/base64.cpp b/3rd_party/base64/src/base64.cpp
index aaf9f19..eb8b433 100644
--- a/3rd_party/base64/src/base64.cpp
+++ b/3rd_party/base64/src/base64.cpp
@@ -52,14 +52,14 @@ std::string Base64::decode(const char* input, size_t length) {
     // make 8 bits char from it.
     // Use conversion table to map char to decoded value (value is between 0 and 63 inclusive for a
     // valid character).
-    const unsigned char a = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read])];
-    const unsigned char b = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 1])];
+    const unsigned char a = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read])];
+    const unsigned char b = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 1])];
     if (a == 64 || b == 64) {
       // Input contains an invalid character.
       return {};
     }
     result.push_back(a << 2 | b >> 4);
-    const unsigned char c = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 2])];
+    const unsigned char c = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 2])];
 
     // Decoded value 64 means invalid character unless we already know it is a valid padding.
     // If so, following characters are all padding.
@@ -78,7 +78,7 @@ std::string Base64::decode(const char* input, size_t length) {
     // Take last 4 bits from 2nd converted char and 4 first bits from 3rd converted char.
     result.push_back(b << 4 | c >> 2);
 
-    const unsigned char d = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 3])];
+    const unsigned char d = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 3])];
     if (d == 64) {
       if (first_padding_index != cur_read + 3) {
         // Input contains an invalid character.
-- 
2.43.0


From f55e31e99b95f7360a4f1d03e6b81ef5ebd48cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 04/16] fix: hexadecimal parsing indexes its table with a
 negative char for bytes >= 0x80

HexTable has 256 entries but was indexed with a (signed) char, so a non-ASCII
byte in a propagated identifier read in front of the table; isspace likewise
requires an unsigned character.
---
 src/common/hex_conversion.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/hex_conversion.cpp b/src/common/hex_conversion.cpp
index 9da5855..37e4e9b 100644
--- a/src/common/hex_conversion.cpp
+++ b/src/common/hex_conversion.cpp
@@ -39,7 +39,7 @@ static opentracing::expected<T> HexToUintImpl(const char* i,
                                               const char* last) noexcept {
   T result = 0;
   for (; i != last; ++i) {
-    auto value = HexTable[*i];
+    auto value = HexTable[static_cast<unsigned char>(*i)];
     if (value == Nil) {
       return opentracing::make_unexpected(
           std::make_error_code(std::errc::invalid_argument));
@@ -56,12 +56,14 @@ static opentracing::expected<T> HexToUintImpl(const char* i,
 static void RemoveSurroundingWhitespace(const char*& i,
                                         const char*& last) noexcept {
   // Remove any leading spaces
-  while (i != last && static_cast<bool>(std::isspace(*i))) {
+  while (i != last &&
+         static_cast<bool>(std::isspace(static_cast<unsigned char>(*i)))) {
     ++i;
   }
 
   // Remove any trailing spaces
-  while (i != last && static_cast<bool>(std::isspace(*(last - 1)))) {
+  while (i != last && static_cast<bool>(
+                          std::isspace(static_cast<unsigned char>(*(last - 1))))) {
     --last;
   }
 }
-- 
2.43.0


From 1c71ddfe30906eef0fbd5b24bbcd4548a80243b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:55 +0000
Subject: [PATCH 05/16] fix: account for what a failing writer wrote before it
 failed

A vectored write can send a batch of fragments and then fail, with the
sent part consumed from the streams.  Flush then never took the span
remnant out of the shared span stream, so that a span cut off by the
failure was neither finished nor counted as dropped, and a finished
remnant was not counted as sent.
---
 src/recorder/stream_recorder/connection_stream.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/recorder/stream_recorder/connection_stream.cpp b/src/recorder/stream_recorder/connection_stream.cpp
index 5567598..f48c3a5 100644
--- a/src/recorder/stream_recorder/connection_stream.cpp
+++ b/src/recorder/stream_recorder/connection_stream.cpp
@@ -71,7 +71,7 @@ void ConnectionStream::Shutdown() noexcept { shutting_down_ = true; }
 //--------------------------------------------------------------------------------------------------
 // Flush
 //--------------------------------------------------------------------------------------------------
-bool ConnectionStream::Flush(Writer writer) {
+bool ConnectionStream::Flush(Writer writer) try {
   if (shutting_down_) {
     return FlushShutdown(writer);
   }
@@ -87,6 +87,16 @@ bool ConnectionStream::Flush(Writer writer) {
     span_remnant_ = span_stream_.ConsumeRemnant();
   }
   return result;
+} catch (...) {
+  // The writer might have written a part of the streams before it failed.
+  if (span_remnant_ != nullptr && !span_remnant_->empty()) {
+    throw;
+  }
+  if (span_remnant_ != nullptr) {
+    span_stream_.metrics().OnSpansSent(1);
+  }
+  span_remnant_ = span_stream_.ConsumeRemnant();
+  throw;
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From 64b9670ef90cbfb263ce13d8eda54fe9df3c3d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:03 +0000
Subject: [PATCH 06/16] fix: a transporter that refuses a report left the
 legacy manual recorder waiting for it forever

---
 src/recorder/legacy_manual_recorder.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/recorder/legacy_manual_recorder.cpp b/src/recorder/legacy_manual_recorder.cpp
index be696b4..18bb726 100644
--- a/src/recorder/legacy_manual_recorder.cpp
+++ b/src/recorder/legacy_manual_recorder.cpp
@@ -85,9 +85,14 @@ bool LegacyManualRecorder::FlushOne() noexcept try {
   return true;
 } catch (const std::exception& e) {
   logger_.Error("Failed to Flush: ", e.what());
-  options_.metrics_observer->OnSpansDropped(saved_pending_spans_);
-  dropped_spans_ += saved_pending_spans_;
-  active_request_.Clear();
+  if (IsReportInProgress()) {
+    // The transporter didn't accept the report: no callback will follow.
+    ++flushed_seqno_;
+    active_request_.Clear();
+    options_.metrics_observer->OnSpansDropped(
+        static_cast<int>(saved_pending_spans_));
+    dropped_spans_ += saved_dropped_spans_ + saved_pending_spans_;
+  }
   return false;
 }
 
-- 
2.43.0


From 4fa6b78c13d273175404d16c5d2d2bd6fdca6092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 07/16] fix: restore decimal formatting after escaping a
 control character in JSON

std::hex is sticky, so every integer written after an escaped control
character came out in hexadecimal (e.g. ["\u0001",ff]).
---
 src/common/utility.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/utility.cpp b/src/common/utility.cpp
index dda85bc..a9c8039 100644
--- a/src/common/utility.cpp
+++ b/src/common/utility.cpp
@@ -77,7 +77,7 @@ static void WriteEscapedString(std::ostringstream& writer,
             c <= static_cast<signed char>('\x1f')) {
           writer << R"(\u)";
           writer << std::hex << std::setw(4) << std::setfill('0')
-                 << static_cast<int>(c);
+                 << static_cast<int>(c) << std::dec;
         } else {
           writer << c;
         }
-- 
2.43.0


From ef0456bca7cb68d9c4f2657130445c83269800a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 08/16] fix: write JSON numbers independently of the global
 locale

A string stream takes the application's global locale, whose digit grouping
or decimal comma (1,234) made the JSON of container values invalid.
---
 src/common/utility.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/utility.cpp b/src/common/utility.cpp
index a9c8039..6db95a3 100644
--- a/src/common/utility.cpp
+++ b/src/common/utility.cpp
@@ -4,6 +4,7 @@
 #include <cctype>
 #include <cmath>
 #include <iomanip>
+#include <locale>
 #include <random>
 #include <sstream>
 #include <stdexcept>
@@ -163,6 +164,7 @@ static void ToJson(std::ostringstream& writer,
 
 std::string ToJson(const opentracing::Value& value) {
   std::ostringstream writer;
+  writer.imbue(std::locale::classic());
   writer.exceptions(std::ios::badbit | std::ios::failbit);
   ToJson(writer, value);
   return writer.str();
-- 
2.43.0


From 509e0dc5761d6e073bf3f8b00fdd722100894947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:25 +0000
Subject: [PATCH 09/16] fix: LegacySpan::SetBaggageItem replaces an item set
 before

---
 src/tracer/legacy/legacy_span.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tracer/legacy/legacy_span.cpp b/src/tracer/legacy/legacy_span.cpp
index 4f07c32..2c6e93b 100644
--- a/src/tracer/legacy/legacy_span.cpp
+++ b/src/tracer/legacy/legacy_span.cpp
@@ -163,8 +163,7 @@ void LegacySpan::SetBaggageItem(opentracing::string_view restricted_key,
   auto lowercase_key = ToLower(restricted_key);
   std::lock_guard<std::mutex> lock_guard{mutex_};
   auto& baggage = *span_.mutable_span_context()->mutable_baggage();
-  baggage.insert(
-      BaggageProtobufMap::value_type(std::move(lowercase_key), value));
+  baggage[lowercase_key] = std::string{value};
 } catch (const std::exception& e) {
   logger_.Error("SetBaggageItem failed: ", e.what());
 }
-- 
2.43.0


From 1f3078d4a445e3f38af3cba0415562915c7cf8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:00 +0000
Subject: [PATCH 10/16] fix: Span must not touch its stream after handing it to
 the recorder

---
 src/tracer/span.cpp | 30 +++++++++++++++++-------------
 src/tracer/span.h   |  2 +-
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/tracer/span.cpp b/src/tracer/span.cpp
index 8396c5d..5907b05 100644
--- a/src/tracer/span.cpp
+++ b/src/tracer/span.cpp
@@ -24,16 +24,17 @@ Span::Span(std::shared_ptr<const TracerImpl>&& tracer,
            const opentracing::StartSpanOptions& options)
     : chained_stream_{new ChainedStream{}},
       header_fragment_{tracer->recorder().ReserveHeaderSpace(*chained_stream_)},
-      coded_stream_{chained_stream_.get()},
+      coded_stream_{
+          new google::protobuf::io::CodedOutputStream{chained_stream_.get()}},
       tracer_{std::move(tracer)} {
-  WriteOperationName(coded_stream_, operation_name);
+  WriteOperationName(*coded_stream_, operation_name);
 
   // Set the start timestamps.
   std::chrono::system_clock::time_point start_timestamp;
   std::tie(start_timestamp, start_steady_) = ComputeStartTimestamps(
       tracer_->recorder(), options.start_system_timestamp,
       options.start_steady_timestamp);
-  WriteStartTimestamp(coded_stream_, start_timestamp);
+  WriteStartTimestamp(*coded_stream_, start_timestamp);
 
   // Set any span references.
   trace_flags_ = 0;
@@ -63,7 +64,7 @@ Span::Span(std::shared_ptr<const TracerImpl>&& tracer,
 
   // Set tags.
   for (auto& tag : options.tags) {
-    WriteTag(coded_stream_, tag.first, tag.second);
+    WriteTag(*coded_stream_, tag.first, tag.second);
 
     // If sampling_priority is set, it overrides whatever sampling decision was
     // derived from the referenced spans.
@@ -101,7 +102,7 @@ void Span::SetOperationName(opentracing::string_view name) noexcept try {
   if (is_finished_) {
     return;
   }
-  WriteOperationName(coded_stream_, name);
+  WriteOperationName(*coded_stream_, name);
 } catch (const std::exception& e) {
   tracer_->logger().Error("SetOperationName failed: ", e.what());
 }
@@ -115,7 +116,7 @@ void Span::SetTag(opentracing::string_view key,
   if (is_finished_) {
     return;
   }
-  WriteTag(coded_stream_, key, value);
+  WriteTag(*coded_stream_, key, value);
   if (key == SamplingPriorityKey) {
     trace_flags_ =
         SetTraceFlag<SampledFlagMask>(trace_flags_, is_sampled(value));
@@ -168,7 +169,7 @@ void Span::Log(std::initializer_list<
   if (is_finished_) {
     return;
   }
-  WriteLog(coded_stream_, timestamp, fields.begin(), fields.end());
+  WriteLog(*coded_stream_, timestamp, fields.begin(), fields.end());
 } catch (const std::exception& e) {
   tracer_->logger().Error("Log failed: ", e.what());
 }
@@ -214,7 +215,7 @@ bool Span::SetSpanReference(
   }
   trace_id_high = referenced_context->trace_id_high();
   trace_id = referenced_context->trace_id_low();
-  WriteSpanReference(coded_stream_, reference.first, trace_id,
+  WriteSpanReference(*coded_stream_, reference.first, trace_id,
                      referenced_context->span_id());
   trace_flags_ |= referenced_context->trace_flags();
   AppendTraceState(trace_state_, referenced_context->trace_state());
@@ -247,23 +248,26 @@ void Span::FinishImpl(
 
   // Set timing information.
   auto duration = finish_timestamp - start_steady_;
-  WriteDuration(coded_stream_, duration);
+  WriteDuration(*coded_stream_, duration);
 
   // Set logs
   for (auto& log_record : options.log_records) {
     try {
-      WriteLog(coded_stream_, log_record.timestamp, log_record.fields.data(),
+      WriteLog(*coded_stream_, log_record.timestamp, log_record.fields.data(),
                log_record.fields.data() + log_record.fields.size());
     } catch (const std::exception& e) {
       tracer_->logger().Error("Dropping log record: ", e.what());
     }
   }
 
-  WriteSpanContext(coded_stream_, trace_id_, span_id_, baggage_.as_vector());
+  WriteSpanContext(*coded_stream_, trace_id_, span_id_, baggage_.as_vector());
 
   // Record the span
-  tracer_->recorder().WriteFooter(coded_stream_);
-  coded_stream_.Trim();
+  tracer_->recorder().WriteFooter(*coded_stream_);
+
+  // Hand any unused space back to the chained stream; coded_stream_ can't refer
+  // to it any longer once the recorder owns it.
+  coded_stream_.reset();
   tracer_->recorder().RecordSpan(header_fragment_, std::move(chained_stream_));
 } catch (const std::exception& e) {
   tracer_->logger().Error("FinishWithOptions failed: ", e.what());
diff --git a/src/tracer/span.h b/src/tracer/span.h
index 476d163..5b9a174 100644
--- a/src/tracer/span.h
+++ b/src/tracer/span.h
@@ -100,7 +100,7 @@ class Span final : public opentracing::Span, public LightStepSpanContext {
 
   std::unique_ptr<ChainedStream> chained_stream_;
   Fragment header_fragment_;
-  google::protobuf::io::CodedOutputStream coded_stream_;
+  std::unique_ptr<google::protobuf::io::CodedOutputStream> coded_stream_;
 
   std::chrono::steady_clock::time_point start_steady_;
   std::atomic<bool> is_finished_{false};
-- 
2.43.0


From c7a19b5b2a2467991d74d2c088d504acdaf99a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:38 +0000
Subject: [PATCH 11/16] fix: a socket error during shutdown completes the
 shutdown

SatelliteConnection::OnSocketError reconnected even while shutting down; the
grace timer was gone by then, so that the shutdown never completed.
---
 src/recorder/stream_recorder/satellite_connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index 3ec8316..e05292e 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -278,6 +278,11 @@ void SatelliteConnection::OnWritable(FileDescriptor file_descriptor,
 //--------------------------------------------------------------------------------------------------
 void SatelliteConnection::OnSocketError() noexcept try {
   FreeSocket();
+  if (is_shutting_down_) {
+    // if the socket fails during shutdown, don't reconnect
+    was_shutdown_ = true;
+    return;
+  }
   Connect();
 } catch (const std::exception& e) {
   streamer_.logger().Error("OnSocketError failed: ", e.what());
-- 
2.43.0


From 2581671574cb17a9ddac50e71caffa7ff63bfb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:38 +0000
Subject: [PATCH 12/16] fix: SatelliteConnection must not connect after its
 shutdown completed

A retry that was pending, or endpoints becoming ready late, opened a new
connection on a connection already shut down.
---
 src/recorder/stream_recorder/satellite_connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index e05292e..e8ebc36 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -94,6 +94,11 @@ bool SatelliteConnection::ready() const noexcept {
 // Connect
 //--------------------------------------------------------------------------------------------------
 void SatelliteConnection::Connect() noexcept try {
+  if (was_shutdown_) {
+    // the shutdown completed while a retry was pending or before the endpoints
+    // were ready
+    return;
+  }
   auto endpoint = streamer_.endpoint_manager().RequestEndpoint();
   streamer_.logger().Info("Connecting to satellite on ip ", endpoint.first);
   socket_ = lightstep::Connect(endpoint.first);
-- 
2.43.0


From 1d4cb3170a5ef7dc0851c67a35563c8c8e688aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:38 +0000
Subject: [PATCH 13/16] fix: remove the graceful shutdown timer when the final
 flush fails

The timer was scheduled after flushing, so that after a failed flush both the
retry and the timer were pending, and the later one connected over a live
connection. A flush failing in InitiateShutdown also scheduled a retry.
---
 .../stream_recorder/satellite_connection.cpp  | 22 ++++++++++++++-----
 .../stream_recorder/satellite_connection.h    |  2 ++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index e8ebc36..adb72d5 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -79,8 +79,11 @@ bool SatelliteConnection::Flush() noexcept try {
 // InitiateShutdown
 //--------------------------------------------------------------------------------------------------
 void SatelliteConnection::InitiateShutdown() noexcept {
-  InitiateReconnect();
+  if (is_shutting_down_) {
+    return;
+  }
   is_shutting_down_ = true;
+  ShutdownStream();
 }
 
 //--------------------------------------------------------------------------------------------------
@@ -168,20 +171,29 @@ void SatelliteConnection::ScheduleReconnect() {
 //--------------------------------------------------------------------------------------------------
 // InitiateReconnect
 //--------------------------------------------------------------------------------------------------
-void SatelliteConnection::InitiateReconnect() noexcept try {
+void SatelliteConnection::InitiateReconnect() noexcept {
   if (is_shutting_down_) {
     // If we're shutting down, then we've already scheduled a reconnect so do
     // nothing.
     return;
   }
+  ShutdownStream();
+}
+
+//--------------------------------------------------------------------------------------------------
+// ShutdownStream
+//--------------------------------------------------------------------------------------------------
+void SatelliteConnection::ShutdownStream() noexcept try {
+  // Note: The timeout is scheduled before flushing so that it's removed again
+  // if flushing fails.
+  graceful_shutdown_timeout_.Add(
+      streamer_.recorder_options().satellite_graceful_stream_shutdown_timeout);
   connection_stream_.Shutdown();
   if (writable_) {
     Flush();
   }
-  graceful_shutdown_timeout_.Add(
-      streamer_.recorder_options().satellite_graceful_stream_shutdown_timeout);
 } catch (const std::exception& e) {
-  streamer_.logger().Error("InitiateReconnect failed: ", e.what());
+  streamer_.logger().Error("ShutdownStream failed: ", e.what());
   return HandleFailure();
 }
 
diff --git a/src/recorder/stream_recorder/satellite_connection.h b/src/recorder/stream_recorder/satellite_connection.h
index abbf717..54cd498 100644
--- a/src/recorder/stream_recorder/satellite_connection.h
+++ b/src/recorder/stream_recorder/satellite_connection.h
@@ -71,6 +71,8 @@ class SatelliteConnection : private Noncopyable {
 
   void InitiateReconnect() noexcept;
 
+  void ShutdownStream() noexcept;
+
   void Reconnect() noexcept;
 
   void GracefulShutdownTimeout() noexcept;
-- 
2.43.0


From 703b82c89217d59de3610ff23b5101465cda95b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:53 +0000
Subject: [PATCH 14/16] fix: shut down the connections made after a fork if a
 shutdown was asked for

A recorder that was shut down made new satellite connections when the
process forked, while ShutdownWithTimeout went on reporting that no
connection was active.
---
 src/recorder/stream_recorder/stream_recorder.cpp | 15 +++++++++++++++
 src/recorder/stream_recorder/stream_recorder.h   |  9 +++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/recorder/stream_recorder/stream_recorder.cpp b/src/recorder/stream_recorder/stream_recorder.cpp
index 0bdaee6..4e3cb53 100644
--- a/src/recorder/stream_recorder/stream_recorder.cpp
+++ b/src/recorder/stream_recorder/stream_recorder.cpp
@@ -156,6 +156,7 @@ void StreamRecorder::PrepareForFork() noexcept {
 // OnForkedParent
 //--------------------------------------------------------------------------------------------------
 void StreamRecorder::OnForkedParent() noexcept {
+  RenewShutdown();
   stream_recorder_impl_.reset(new StreamRecorderImpl{*this});
 }
 
@@ -170,6 +171,7 @@ void StreamRecorder::OnForkedChild() noexcept {
   num_spans_consumed_ = span_buffer_.production_count();
   pending_flush_counter_ = 0;
 
+  RenewShutdown();
   stream_recorder_impl_.reset(new StreamRecorderImpl{*this});
 }
 
@@ -187,6 +189,7 @@ void StreamRecorder::Poll(StreamRecorderImpl& stream_recorder_impl) noexcept {
   }
 
   if (shutdown_counter_.exchange(0) > 0) {
+    shutdown_initiated_ = true;
     stream_recorder_impl.InitiateShutdown();
   }
 
@@ -199,6 +202,18 @@ void StreamRecorder::Poll(StreamRecorderImpl& stream_recorder_impl) noexcept {
   }
 }
 
+//--------------------------------------------------------------------------------------------------
+// RenewShutdown
+//--------------------------------------------------------------------------------------------------
+void StreamRecorder::RenewShutdown() noexcept {
+  if (!shutdown_initiated_) {
+    return;
+  }
+  std::lock_guard<std::mutex> lock_guard{shutdown_mutex_};
+  last_is_active_ = true;
+  ++shutdown_counter_;
+}
+
 //--------------------------------------------------------------------------------------------------
 // MakeStreamRecorder
 //--------------------------------------------------------------------------------------------------
diff --git a/src/recorder/stream_recorder/stream_recorder.h b/src/recorder/stream_recorder/stream_recorder.h
index 44f4c3c..da1c58d 100644
--- a/src/recorder/stream_recorder/stream_recorder.h
+++ b/src/recorder/stream_recorder/stream_recorder.h
@@ -147,6 +147,15 @@ class StreamRecorder : public ForkAwareRecorder, private Noncopyable {
   // that any threads waiting on shutdown can be notified.
   bool last_is_active_{true};
 
+  // Set once polling has asked the satellite connections to shut down.
+  std::atomic<bool> shutdown_initiated_{false};
+
   std::unique_ptr<StreamRecorderImpl> stream_recorder_impl_;
+
+  /**
+   * Forking replaces the satellite connections. If they had been asked to shut
+   * down, then ask the same of the connections that replace them.
+   */
+  void RenewShutdown() noexcept;
 };
 }  // namespace lightstep
-- 
2.43.0


From 9656adbc5fad821fc44239c7ecf1a802eae9dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:25 +0000
Subject: [PATCH 15/16] fix: keep watching dns sockets after their first event

c-ares calls the socket state callback only when a socket's state changes,
but the events were not persistent: after one datagram nothing was read from
the socket any more. A stray answer, or a second query on the same socket,
made a resolution time out although the server had answered.
---
 src/network/ares_dns_resolver/ares_dns_resolver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network/ares_dns_resolver/ares_dns_resolver.cpp b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
index 3300220..da1d808 100644
--- a/src/network/ares_dns_resolver/ares_dns_resolver.cpp
+++ b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
@@ -137,7 +137,8 @@ void AresDnsResolver::OnSocketStateChange(FileDescriptor file_descriptor,
     socket_events_.erase(file_descriptor);
     return;
   }
-  short options = 0;
+  // ares only reports changes, so events must stay armed after they fire.
+  short options = EV_PERSIST;
   if (read == 1) {
     options |= EV_READ;
   }
-- 
2.43.0


From 412ef79fa8f14cc7601f12aa316aea5cac4f3fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:25 +0000
Subject: [PATCH 16/16] fix: start the dns timer when a query is sent

The timer c-ares asks for was armed only after a socket event, so a query to
a name server that never answers was neither retried nor timed out, and its
callback was never called.
---
 src/network/ares_dns_resolver/ares_dns_resolver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/network/ares_dns_resolver/ares_dns_resolver.cpp b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
index da1d808..30c125b 100644
--- a/src/network/ares_dns_resolver/ares_dns_resolver.cpp
+++ b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
@@ -123,9 +123,14 @@ AresDnsResolver::~AresDnsResolver() noexcept { ares_destroy(channel_); }
 // Resolve
 //--------------------------------------------------------------------------------------------------
 void AresDnsResolver::Resolve(const char* name, int family,
-                              DnsResolutionCallback& callback) noexcept {
+                              DnsResolutionCallback& callback) noexcept try {
   ares_gethostbyname(channel_, name, family, OnDnsResolution,
                      static_cast<void*>(&callback));
+  // If no answer ever arrives there's no socket event, so the timer must be
+  // running for the query to be retried and to time out.
+  UpdateTimer();
+} catch (const std::exception& e) {
+  logger_.Error("failed to set up the ares timer: ", e.what());
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0

