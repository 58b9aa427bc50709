From f1e5d86d938ff856cd920196ca2953688c6a3dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 01/22] fix: do not execute an already executed order again
 after a gap tick

---
 eval/eval.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/eval/eval.cc b/eval/eval.cc
index e290f2e..2c809f7 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -86,7 +86,8 @@ ExecutionResult ExecuteTrader(const AccountConfig& account_config,
     // The trader was updated on the previous OHLC tick T[i-1] and emitted
     // "orders". There are no other active orders on the exchange.
     // Execute (or cancel) "orders" on the current OHLC tick T[i].
-    for (const Order& order : orders) {
+    for (auto order_it = orders.begin(); order_it != orders.end();) {
+      const Order& order = *order_it;
       const bool success =
           account.ExecuteOrder(account_config, order, ohlc_tick);
       if (success) {
@@ -95,13 +96,18 @@ ExecutionResult ExecuteTrader(const AccountConfig& account_config,
         if (logger != nullptr) {
           logger->LogExchangeState(ohlc_tick, account, order);
         }
+        // An executed order is no longer active. In particular, it must not be
+        // executed again when the orders are kept over a gap (see below).
+        order_it = orders.erase(order_it);
+      } else {
+        ++order_it;
       }
     }
     if (ohlc_tick.volume() == 0) {
       // Zero volume OHLC tick indicates a gap in a price history. Such gap
       // could have been caused by an unresponsive exchange (or its API).
       // Therefore, we do not update the trader and simply keep the previously
-      // emitted orders.
+      // emitted (and not yet executed) orders.
       continue;
     }
     // Update the trader internal state on the current OHLC tick T[i].
-- 
2.43.0


From 5454f57600fe900442031d1feec4c45113abc415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 02/22] fix: terminate the evaluation when the single period
 has no OHLC ticks

---
 eval/eval.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eval/eval.cc b/eval/eval.cc
index 2c809f7..22034d3 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -170,6 +170,10 @@ EvaluationResult EvaluateTrader(const AccountConfig& account_config,
     const auto ohlc_history_subset = HistorySubset(
         ohlc_history, start_eval_timestamp_sec, end_eval_timestamp_sec);
     if (ohlc_history_subset.first == ohlc_history_subset.second) {
+      if (eval_config.evaluation_period_months() <= 0) {
+        // There is only one evaluation period and it has no OHLC ticks.
+        break;
+      }
       continue;
     }
     std::unique_ptr<Trader> trader = trader_emitter.NewTrader();
@@ -184,7 +188,7 @@ EvaluationResult EvaluateTrader(const AccountConfig& account_config,
     period->set_final_gain(result.end_value() / result.start_value());
     assert(result.start_price() > 0 && result.end_price() > 0);
     period->set_base_final_gain(result.end_price() / result.start_price());
-    if (eval_config.evaluation_period_months() == 0) {
+    if (eval_config.evaluation_period_months() <= 0) {
       break;
     }
   }
-- 
2.43.0


From d5f6c1dabeb77bee373f61a8094a8c7ebd7cd2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 03/22] fix: return an empty history subset when the interval
 end precedes its start

---
 base/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/base.h b/base/base.h
index ae54983..9eb073e 100644
--- a/base/base.h
+++ b/base/base.h
@@ -62,7 +62,7 @@ HistorySubset(const std::vector<T>& history, int64_t start_timestamp_sec,
           : history.begin();
   const auto record_end =
       end_timestamp_sec > 0
-          ? std::lower_bound(history.begin(), history.end(), end_timestamp_sec,
+          ? std::lower_bound(record_begin, history.end(), end_timestamp_sec,
                              record_compare)
           : history.end();
   return {record_begin, record_end};
-- 
2.43.0


From 481c6928a0c8e7030279d1661bc33b53e2f7f4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 04/22] fix: do not execute orders with zero base amount when
 base_unit is zero

---
 base/account.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/account.cc b/base/account.cc
index f74272b..cd56b82 100644
--- a/base/account.cc
+++ b/base/account.cc
@@ -79,7 +79,7 @@ bool Account::BuyBase(const FeeConfig& fee_config, float base_amount,
   assert(price > 0);
   assert(base_amount >= 0);
   base_amount = Round(base_amount, base_unit);
-  if (base_amount < base_unit) {
+  if (base_amount <= 0 || base_amount < base_unit) {
     return false;
   }
   const float quote_amount = Ceil(base_amount * price, quote_unit);
@@ -119,7 +119,8 @@ bool Account::SellBase(const FeeConfig& fee_config, float base_amount,
   assert(price > 0);
   assert(base_amount >= 0);
   base_amount = Round(base_amount, base_unit);
-  if (base_amount < base_unit || base_amount > base_balance) {
+  if (base_amount <= 0 || base_amount < base_unit ||
+      base_amount > base_balance) {
     return false;
   }
   const float quote_amount = Floor(base_amount * price, quote_unit);
-- 
2.43.0


From b7bc1f938454b967358de77d34bdf904638cd52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 05/22] fix: never return more than top_n price history gaps

---
 base/history.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/history.cc b/base/history.cc
index 562ed20..9747fe9 100644
--- a/base/history.cc
+++ b/base/history.cc
@@ -32,6 +32,9 @@ std::vector<HistoryGap> GetPriceHistoryGaps(PriceHistory::const_iterator begin,
   std::vector<HistoryGap> history_gaps;
   if (start_timestamp_sec > 0) {
     gap_queue.push(HistoryGap{start_timestamp_sec, begin->timestamp_sec()});
+    if (gap_queue.size() > top_n) {
+      gap_queue.pop();
+    }
   }
   auto it_prev = end;
   for (auto it = begin; it != end; ++it) {
-- 
2.43.0


From e6a4884939bece0dcd6e8606fc476d8a3e576692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 06/22] fix: never return negative variance (and NaN standard
 deviation)

---
 indicators/util.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/indicators/util.cc b/indicators/util.cc
index 0da1c03..9579354 100644
--- a/indicators/util.cc
+++ b/indicators/util.cc
@@ -17,8 +17,11 @@ float SlidingWindowMeanAndVariance::GetVariance() const {
   }
   const int window_size = GetWindowSize();
   const float mean = (current_value_ + window_sum_) / window_size;
-  return (std::pow(current_value_, 2) + window_sum_2_) / window_size -
-         std::pow(mean, 2);
+  // The difference can become (slightly) negative due to rounding errors.
+  const float variance =
+      (std::pow(current_value_, 2) + window_sum_2_) / window_size -
+      std::pow(mean, 2);
+  return std::max(0.0f, variance);
 }
 
 float SlidingWindowMeanAndVariance::GetStandardDeviation() const {
-- 
2.43.0


From 2f3858f08e0fe535596b6ccaffd9f9e895960ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 07/22] fix: reject CSV lines that cannot be parsed instead of
 repeating the previous record

---
 convert.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/convert.cc b/convert.cc
index fd6d36b..b6dcbae 100644
--- a/convert.cc
+++ b/convert.cc
@@ -81,7 +81,11 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
   PriceHistory price_history;
   while (std::getline(infile, line)) {
     ++row;
-    std::sscanf(line.c_str(), "%lld,%f,%f", &timestamp_sec, &price, &volume);
+    if (std::sscanf(line.c_str(), "%lld,%f,%f",  // nowrap
+                    &timestamp_sec, &price, &volume) != 3) {
+      return absl::InvalidArgumentError(
+          absl::StrFormat("Cannot parse the line %d: %s", row, line));
+    }
     if (start_timestamp_sec > 0 && timestamp_sec < start_timestamp_sec) {
       continue;
     }
@@ -137,8 +141,12 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
   OhlcHistory ohlc_history;
   while (std::getline(infile, line)) {
     ++row;
-    std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f",  // nowrap
-                &timestamp_sec, &open, &high, &low, &close, &volume);
+    if (std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f",  // nowrap
+                    &timestamp_sec, &open, &high, &low, &close,
+                    &volume) != 6) {
+      return absl::InvalidArgumentError(
+          absl::StrFormat("Cannot parse the line %d: %s", row, line));
+    }
     if (start_timestamp_sec > 0 && timestamp_sec < start_timestamp_sec) {
       continue;
     }
-- 
2.43.0


From 0a2e5bd2170260364a0fbac47ccc9b206c7054c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 08/22] fix: do not crash on a side input history without any
 records

---
 base/side_input.cc | 3 ++-
 base/side_input.h  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/side_input.cc b/base/side_input.cc
index 9a74ef5..1a56ae1 100644
--- a/base/side_input.cc
+++ b/base/side_input.cc
@@ -5,7 +5,8 @@
 namespace trader {
 
 SideInput::SideInput(const SideHistory& side_history)
-    : num_signals_(side_history.front().signal_size()) {
+    : num_signals_(side_history.empty() ? 0
+                                         : side_history.front().signal_size()) {
   timestamp_sec_history_.reserve(side_history.size());
   data_.reserve(side_history.size() * num_signals_);
   int64_t prev_timestamp_sec = 0;
diff --git a/base/side_input.h b/base/side_input.h
index 9ad08b7..1065835 100644
--- a/base/side_input.h
+++ b/base/side_input.h
@@ -10,7 +10,8 @@ namespace trader {
 // Side history wrapper for fast thread-safe read-only access.
 class SideInput {
  public:
-  // Constructor. Expects non-empty side_history with increasing timestamps.
+  // Constructor. Expects side_history with increasing timestamps. An empty
+  // side_history has no signals (there is no side input at any timestamp).
   explicit SideInput(const SideHistory& side_history);
   virtual ~SideInput() {}
 
-- 
2.43.0


From 565fb4c84f56b245ffbfbfc94f04f65ea44600ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 09/22] fix: report errors when writing delimited messages
 fails

---
 util/proto.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/util/proto.h b/util/proto.h
index 5b7ebeb..e2b991b 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -125,6 +125,11 @@ absl::Status WriteDelimitedMessagesToOStream(InputIterator first,
     }
     ++first;
   }
+#ifdef HAVE_ZLIB
+  if (!gzip_stream.Close()) {
+    return absl::DataLossError("Cannot write to the output stream");
+  }
+#endif
   return absl::OkStatus();
 }
 
@@ -140,7 +145,17 @@ absl::Status WriteDelimitedMessagesToFile(InputIterator first,
     return absl::InvalidArgumentError(
         absl::StrFormat("Cannot open the input file: %s", file_name));
   }
-  return WriteDelimitedMessagesToOStream(first, last, out_fstream, compress);
+  const absl::Status status =
+      WriteDelimitedMessagesToOStream(first, last, out_fstream, compress);
+  if (!status.ok()) {
+    return status;
+  }
+  out_fstream.close();
+  if (!out_fstream) {
+    return absl::DataLossError(
+        absl::StrFormat("Cannot write to the output file: %s", file_name));
+  }
+  return absl::OkStatus();
 }
 
 }  // namespace trader
-- 
2.43.0


From 07ee088b0de948f5f75c7bfa0a621e9a779ffb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 10/22] fix: place the rebalancing limit orders at the edges of
 the allocation band

The price p at which the share b*p/(b*p+q) reaches x is x*q/((1-x)*b);
the division by the base balance b was missing.
---
 traders/rebalancing_trader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/traders/rebalancing_trader.cc b/traders/rebalancing_trader.cc
index 017692b..2acc218 100644
--- a/traders/rebalancing_trader.cc
+++ b/traders/rebalancing_trader.cc
@@ -40,8 +40,8 @@ void RebalancingTrader::Update(const OhlcTick& ohlc_tick,
     order.set_base_amount(market_buy_base_amount);
   } else if (base_balance > 1.0e-6f && quote_balance > 1.0e-6f) {
     if (alpha * (1 + epsilon) < 1) {
-      const float sell_price =
-          (alpha * (1 + epsilon) * quote_balance) / (1 - alpha * (1 + epsilon));
+      const float sell_price = (alpha * (1 + epsilon) * quote_balance) /
+                               ((1 - alpha * (1 + epsilon)) * base_balance);
       if (sell_price > price && sell_price < 100.0f * price) {
         const float sell_base_amount = base_balance * epsilon / (1 + epsilon);
         orders.emplace_back();
@@ -52,8 +52,8 @@ void RebalancingTrader::Update(const OhlcTick& ohlc_tick,
         sell_order.set_price(sell_price);
       }
     }
-    const float buy_price =
-        (alpha * (1 - epsilon) * quote_balance) / (1 - alpha * (1 - epsilon));
+    const float buy_price = (alpha * (1 - epsilon) * quote_balance) /
+                            ((1 - alpha * (1 - epsilon)) * base_balance);
     if (buy_price < price && buy_price > price / 100.0f) {
       const float buy_base_amount = base_balance * epsilon / (1 - epsilon);
       orders.emplace_back();
-- 
2.43.0


From 106ee8ca7789026f5776f1f943c867431d8c1639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 11/22] fix: report corrupted compressed input instead of a
 clean end of file

---
 util/proto.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/util/proto.h b/util/proto.h
index e2b991b..1327e67 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -46,6 +46,14 @@ absl::Status ReadDelimitedMessagesFromIStream(
         &message, &gzip_stream, &clean_eof);
     if (!parsed) {
       if (clean_eof) {
+#ifdef HAVE_ZLIB
+        // Corrupted compressed data also end the decompressed stream.
+        const int zlib_error = gzip_stream.ZlibErrorCode();
+        if (zlib_error != Z_OK && zlib_error != Z_STREAM_END &&
+            zlib_error != Z_BUF_ERROR) {
+          return absl::DataLossError("Cannot decompress the input stream");
+        }
+#endif
         return absl::OkStatus();
       }
       return absl::InvalidArgumentError("Cannot parse the input stream");
-- 
2.43.0


From 165e51196a2427bba991b6104019532fcc33a7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:11 +0000
Subject: [PATCH 12/22] fix: report a malformed message length instead of a
 clean end of file

---
 util/proto.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/util/proto.h b/util/proto.h
index 1327e67..280af1d 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -46,6 +46,14 @@ absl::Status ReadDelimitedMessagesFromIStream(
         &message, &gzip_stream, &clean_eof);
     if (!parsed) {
       if (clean_eof) {
+        // Malformed length of a message is also reported as a clean EOF.
+        const void* data;
+        int size = 0;
+        while (size == 0 && gzip_stream.Next(&data, &size)) {
+        }
+        if (size > 0) {
+          return absl::InvalidArgumentError("Cannot parse the input stream");
+        }
 #ifdef HAVE_ZLIB
         // Corrupted compressed data also end the decompressed stream.
         const int zlib_error = gzip_stream.ZlibErrorCode();
-- 
2.43.0


From 9bead0a37874f3026e6a99598a2b87459e79984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:36 +0000
Subject: [PATCH 13/22] fix: report unparsable signals and timestamps of side
 history lines

A signal that cannot be parsed ended the line silently, so that the record was
imported with the preceding signals only.
---
 convert.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/convert.cc b/convert.cc
index b6dcbae..103575d 100644
--- a/convert.cc
+++ b/convert.cc
@@ -4,6 +4,7 @@
 #include "absl/flags/parse.h"
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
+#include "absl/strings/numbers.h"
 #include "absl/strings/str_format.h"
 #include "absl/time/time.h"
 #include "base/base.h"
@@ -199,13 +200,14 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
   int64_t timestamp_sec_prev = 0;
   int64_t timestamp_sec = 0;
   float signal = 0;
+  std::string token;
   int num_signals = 0;
   SideHistory side_history;
   while (std::getline(infile, line)) {
     ++row;
     std::replace(line.begin(), line.end(), ',', ' ');
     std::istringstream iss(line);
-    if (!(iss >> timestamp_sec)) {
+    if (!(iss >> token) || !absl::SimpleAtoi(token, &timestamp_sec)) {
       return absl::InvalidArgumentError(absl::StrFormat(
           "Cannot parse the timestamp on the line %d: %s", row, line));
     }
@@ -222,7 +224,11 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
     timestamp_sec_prev = timestamp_sec;
     side_history.emplace_back();
     side_history.back().set_timestamp_sec(timestamp_sec);
-    while (iss >> signal) {
+    while (iss >> token) {
+      if (!absl::SimpleAtof(token, &signal) || !std::isfinite(signal)) {
+        return absl::InvalidArgumentError(absl::StrFormat(
+            "Cannot parse the signal on the line %d: %s", row, line));
+      }
       side_history.back().add_signal(signal);
     }
     if (num_signals == 0) {
-- 
2.43.0


From c6fa1d0b7b2210caae0ff2f3120873c9d3e2d3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:36 +0000
Subject: [PATCH 14/22] fix: reject prices and volumes that are not finite
 numbers

NaN passed all checks of the CSV and proto records because every comparison
with it is false.
---
 convert.cc | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/convert.cc b/convert.cc
index 103575d..c846ed9 100644
--- a/convert.cc
+++ b/convert.cc
@@ -97,11 +97,11 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
     }
-    if (price <= 0) {
+    if (!std::isfinite(price) || price <= 0) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid price on the line %d: %s", row, line));
     }
-    if (volume < 0) {
+    if (!std::isfinite(volume) || volume < 0) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid volume on the line %d: %s", row, line));
     }
@@ -158,12 +158,14 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
     }
-    if (open <= 0 || high <= 0 || low <= 0 || close <= 0 || low > open ||
-        low > high || low > close || high < open || high < close) {
+    if (!std::isfinite(open) || !std::isfinite(high) || !std::isfinite(low) ||
+        !std::isfinite(close) || open <= 0 || high <= 0 || low <= 0 ||
+        close <= 0 || low > open || low > high || low > close || high < open ||
+        high < close) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid OHLC prices on the line %d: %s", row, line));
     }
-    if (volume < 0) {
+    if (!std::isfinite(volume) || volume < 0) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid volume on the line %d: %s", row, line));
     }
@@ -303,10 +305,11 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromDelimitedProtoFile(
       file_name, start_time, end_time,
       /*validate=*/
       [](const PriceRecord& price_record) -> absl::Status {
-        if (price_record.price() <= 0) {
+        if (!std::isfinite(price_record.price()) || price_record.price() <= 0) {
           return absl::InvalidArgumentError("Invalid price");
         }
-        if (price_record.volume() < 0) {
+        if (!std::isfinite(price_record.volume()) ||
+            price_record.volume() < 0) {
           return absl::InvalidArgumentError("Invalid volume");
         }
         return absl::OkStatus();
@@ -321,8 +324,12 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromDelimitedProtoFile(
       file_name, start_time, end_time,
       /*validate=*/
       [](const OhlcTick& ohlc_tick) -> absl::Status {
-        if (ohlc_tick.open() <= 0 || ohlc_tick.high() <= 0 ||
-            ohlc_tick.low() <= 0 || ohlc_tick.close() <= 0 ||
+        if (!std::isfinite(ohlc_tick.open()) ||
+            !std::isfinite(ohlc_tick.high()) ||
+            !std::isfinite(ohlc_tick.low()) ||
+            !std::isfinite(ohlc_tick.close()) || ohlc_tick.open() <= 0 ||
+            ohlc_tick.high() <= 0 || ohlc_tick.low() <= 0 ||
+            ohlc_tick.close() <= 0 ||
             ohlc_tick.low() > ohlc_tick.open() ||
             ohlc_tick.low() > ohlc_tick.high() ||
             ohlc_tick.low() > ohlc_tick.close() ||
@@ -330,7 +337,7 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromDelimitedProtoFile(
             ohlc_tick.high() < ohlc_tick.close()) {
           return absl::InvalidArgumentError("Invalid OHLC prices");
         }
-        if (ohlc_tick.volume() < 0) {
+        if (!std::isfinite(ohlc_tick.volume()) || ohlc_tick.volume() < 0) {
           return absl::InvalidArgumentError("Invalid volume");
         }
         return absl::OkStatus();
-- 
2.43.0


From dc41ee3c002708a2946aecd1b4a00a5f33e6e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:36 +0000
Subject: [PATCH 15/22] fix: reject a sampling rate that is not positive

Resampling divided by zero.
---
 convert.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/convert.cc b/convert.cc
index c846ed9..45b3d66 100644
--- a/convert.cc
+++ b/convert.cc
@@ -470,6 +470,11 @@ int main(int argc, char* argv[]) {
     std::exit(EXIT_FAILURE);
   }
 
+  if (absl::GetFlag(FLAGS_sampling_rate_sec) <= 0) {
+    LogError("Sampling rate must be positive");
+    std::exit(EXIT_FAILURE);
+  }
+
   const bool read_price_history =
       !absl::GetFlag(FLAGS_input_price_history_csv_file).empty() ||
       !absl::GetFlag(FLAGS_input_price_history_delimited_proto_file).empty();
-- 
2.43.0


From e1c4f3de9a7903e20c55e4fd1ce2fcff9ee4cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 16/22] fix: evaluation periods before 1970 must not cover the
 whole history

A period ending in 1970 or earlier was evaluated over all OHLC ticks, because
non-positive bounds are ignored when selecting the history.
---
 eval/eval.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eval/eval.cc b/eval/eval.cc
index 22034d3..adf1922 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -167,6 +167,12 @@ EvaluationResult EvaluateTrader(const AccountConfig& account_config,
     if (end_eval_timestamp_sec > eval_config.end_timestamp_sec()) {
       break;
     }
+    if (eval_config.evaluation_period_months() > 0 &&
+        end_eval_timestamp_sec <= 0) {
+      // There are no OHLC ticks before 1970. (Note that the HistorySubset
+      // ignores the end timestamp if it is not positive.)
+      continue;
+    }
     const auto ohlc_history_subset = HistorySubset(
         ohlc_history, start_eval_timestamp_sec, end_eval_timestamp_sec);
     if (ohlc_history_subset.first == ohlc_history_subset.second) {
-- 
2.43.0


From 86292a23b8df7ee2ac07ea8714adaf0d95de6af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 17/22] fix: report an unknown trader name as an error

It failed an assertion, or evaluated the stop trader with assertions off.
---
 trader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trader.cc b/trader.cc
index e8675fb..a3bbc0a 100644
--- a/trader.cc
+++ b/trader.cc
@@ -154,6 +154,12 @@ int main(int argc, char* argv[]) {
 
   absl::ParseCommandLine(argc, argv);
 
+  if (absl::GetFlag(FLAGS_trader) != "rebalancing" &&
+      absl::GetFlag(FLAGS_trader) != "stop") {
+    LogError(absl::StrFormat("Unknown trader: %s", absl::GetFlag(FLAGS_trader)));
+    std::exit(EXIT_FAILURE);
+  }
+
   const AccountConfig account_config = GetAccountConfig();
   LogInfo("Trader AccountConfig:");
   LogInfo(account_config.DebugString());
-- 
2.43.0


From b95087fe1e12af666da1bf027ab55bf9e48044b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 18/22] fix: report invalid starting balances as an error

The evaluation of an empty account failed an assertion.
---
 trader.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trader.cc b/trader.cc
index a3bbc0a..cbbdd16 100644
--- a/trader.cc
+++ b/trader.cc
@@ -161,6 +161,14 @@ int main(int argc, char* argv[]) {
   }
 
   const AccountConfig account_config = GetAccountConfig();
+  if (!(account_config.start_base_balance() >= 0) ||
+      !(account_config.start_quote_balance() >= 0) ||
+      !(account_config.start_base_balance() +
+            account_config.start_quote_balance() >
+        0)) {
+    LogError("Starting balances must not be negative and not both zero");
+    std::exit(EXIT_FAILURE);
+  }
   LogInfo("Trader AccountConfig:");
   LogInfo(account_config.DebugString());
 
-- 
2.43.0


From 060006ab60fbc2c0a7ae60084a92f2879a0c7384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 19/22] fix: report an invalid side input history as an error

Records out of order or with different numbers of signals failed an assertion.
---
 trader.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/trader.cc b/trader.cc
index cbbdd16..c9ff1e7 100644
--- a/trader.cc
+++ b/trader.cc
@@ -101,6 +101,21 @@ absl::StatusOr<std::vector<T>> ReadHistory(
   return history_subset;
 }
 
+// Checks that the side input records are chronologically sorted and have the
+// same number of signals.
+absl::Status CheckSideHistory(const SideHistory& side_history) {
+  int64_t timestamp_sec_prev = 0;
+  for (const SideInputRecord& side_input : side_history) {
+    if (side_input.timestamp_sec() <= timestamp_sec_prev ||
+        side_input.signal_size() != side_history.front().signal_size()) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "Invalid side input record:\n%s", side_input.DebugString()));
+    }
+    timestamp_sec_prev = side_input.timestamp_sec();
+  }
+  return absl::OkStatus();
+}
+
 // Opens the file log_filename for logging purposes.
 absl::StatusOr<std::unique_ptr<std::ofstream>> OpenLogFile(
     const std::string& log_filename) {
@@ -211,6 +226,7 @@ int main(int argc, char* argv[]) {
             absl::GetFlag(FLAGS_input_side_history_delimited_proto_file),
             start_time, end_time);
     CheckOk(side_history_status.status());
+    CheckOk(CheckSideHistory(side_history_status.value()));
     side_input = absl::make_unique<SideInput>(side_history_status.value());
   }
 
-- 
2.43.0


From 527832f8698584f9e62303dc36147b42a5c5ce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 20/22] fix: report log files that cannot be written completely

A full disk left truncated logs behind a successful exit.
---
 trader.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/trader.cc b/trader.cc
index c9ff1e7..f03bced 100644
--- a/trader.cc
+++ b/trader.cc
@@ -135,6 +135,19 @@ absl::StatusOr<std::unique_ptr<std::ofstream>> OpenLogFile(
   return log_stream;
 }
 
+// Closes the log file and checks that everything was written to it.
+absl::Status CloseLogFile(const std::string& log_filename,
+                          std::ofstream* log_stream) {
+  if (log_stream != nullptr) {
+    log_stream->close();
+    if (!*log_stream) {
+      return absl::DataLossError(
+          absl::StrFormat("Cannot write the file: %s", log_filename));
+    }
+  }
+  return absl::OkStatus();
+}
+
 void PrintBatchEvalResults(const std::vector<EvaluationResult>& eval_results,
                            size_t top_n) {
   const size_t eval_count = std::min(top_n, eval_results.size());
@@ -261,6 +274,10 @@ int main(int argc, char* argv[]) {
         EvaluateTrader(account_config, eval_config, ohlc_history,
                        side_input.get(), *trader_emitter, &logger);
     PrintTraderEvalResult(eval_result);
+    CheckOk(CloseLogFile(absl::GetFlag(FLAGS_output_exchange_log_file),
+                         exchange_log_stream_status.value().get()));
+    CheckOk(CloseLogFile(absl::GetFlag(FLAGS_output_trader_log_file),
+                         trader_log_stream_status.value().get()));
   }
   LogInfo(
       absl::StrFormat("\nEvaluated in %.3f seconds",
-- 
2.43.0


From 0f830b50f4b6c89eee41e0f0cbe98aa7413d2fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 21/22] fix: report an invalid OHLC history as an error

Ticks with equal timestamps or without positive prices failed an assertion.
---
 trader.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/trader.cc b/trader.cc
index f03bced..a14fd7d 100644
--- a/trader.cc
+++ b/trader.cc
@@ -101,6 +101,21 @@ absl::StatusOr<std::vector<T>> ReadHistory(
   return history_subset;
 }
 
+// Checks that the OHLC ticks are chronologically sorted and have valid prices.
+absl::Status CheckOhlcHistory(const OhlcHistory& ohlc_history) {
+  int64_t timestamp_sec_prev = 0;
+  for (const OhlcTick& ohlc_tick : ohlc_history) {
+    if (ohlc_tick.timestamp_sec() <= timestamp_sec_prev ||
+        !(ohlc_tick.open() > 0 && ohlc_tick.high() > 0 && ohlc_tick.low() > 0 &&
+          ohlc_tick.close() > 0 && ohlc_tick.volume() >= 0)) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "Invalid OHLC tick:\n%s", ohlc_tick.DebugString()));
+    }
+    timestamp_sec_prev = ohlc_tick.timestamp_sec();
+  }
+  return absl::OkStatus();
+}
+
 // Checks that the side input records are chronologically sorted and have the
 // same number of signals.
 absl::Status CheckSideHistory(const SideHistory& side_history) {
@@ -227,6 +242,7 @@ int main(int argc, char* argv[]) {
       absl::GetFlag(FLAGS_input_ohlc_history_delimited_proto_file),  // nowrap
       start_time, end_time);
   CheckOk(ohlc_history_status.status());
+  CheckOk(CheckOhlcHistory(ohlc_history_status.value()));
   const OhlcHistory& ohlc_history = ohlc_history_status.value();
 
   std::unique_ptr<SideInput> side_input;
-- 
2.43.0


From 42543c2fe1248a2a5735728143561b8484d6684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:08 +0000
Subject: [PATCH 22/22] fix: trader refuses OHLC ticks with infinite or
 contradictory values

Infinite prices made the evaluation fail with an assertion, and ticks whose
low or high contradict the other prices were evaluated without notice.
---
 trader.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trader.cc b/trader.cc
index a14fd7d..677f248 100644
--- a/trader.cc
+++ b/trader.cc
@@ -1,5 +1,7 @@
 // Copyright © 2023 Peter Cerno. All rights reserved.
 
+#include <cmath>
+
 #include "absl/flags/flag.h"
 #include "absl/flags/parse.h"
 #include "absl/memory/memory.h"
@@ -106,8 +108,12 @@ absl::Status CheckOhlcHistory(const OhlcHistory& ohlc_history) {
   int64_t timestamp_sec_prev = 0;
   for (const OhlcTick& ohlc_tick : ohlc_history) {
     if (ohlc_tick.timestamp_sec() <= timestamp_sec_prev ||
-        !(ohlc_tick.open() > 0 && ohlc_tick.high() > 0 && ohlc_tick.low() > 0 &&
-          ohlc_tick.close() > 0 && ohlc_tick.volume() >= 0)) {
+        !(ohlc_tick.low() > 0 && ohlc_tick.low() <= ohlc_tick.open() &&
+          ohlc_tick.low() <= ohlc_tick.close() &&
+          ohlc_tick.open() <= ohlc_tick.high() &&
+          ohlc_tick.close() <= ohlc_tick.high() &&
+          std::isfinite(ohlc_tick.high()) && ohlc_tick.volume() >= 0 &&
+          std::isfinite(ohlc_tick.volume()))) {
       return absl::InvalidArgumentError(absl::StrFormat(
           "Invalid OHLC tick:\n%s", ohlc_tick.DebugString()));
     }
-- 
2.43.0

