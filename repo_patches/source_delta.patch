From 0faa4776bea9b6a18ad3373bea6460a38c6eb7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 01/10] fix: hashCode of messages without fields recursed until
 the stack overflowed

---
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend041.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend042.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend043.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend044.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend045.java | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend041.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend042.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend043.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend044.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend045.java   | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder041.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder042.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder043.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder044.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder045.java     | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Heartbeat.java   | 2 +-
 .../java/com/finproto/bjse/trade/messages/QuoteExtend071.java   | 2 +-
 .../bjse/trade/messages/TradeCaptureCofirmExtend060.java        | 2 +-
 .../bjse/trade/messages/TradeCaptureCofirmExtend061.java        | 2 +-
 .../bjse/trade/messages/TradeCaptureConfirmExtend060.java       | 2 +-
 .../bjse/trade/messages/TradeCaptureConfirmExtend061.java       | 2 +-
 .../bjse/trade/messages/TradeCaptureReportAckExtend060.java     | 2 +-
 .../bjse/trade/messages/TradeCaptureReportAckExtend061.java     | 2 +-
 .../bjse/trade/messages/TradeCaptureReportExtend060.java        | 2 +-
 .../bjse/trade/messages/TradeCaptureReportExtend061.java        | 2 +-
 .../src/main/java/com/finproto/sample/messages/EmptyPacket.java | 2 +-
 .../src/main/java/com/finproto/sse/bin/messages/Heartbeat.java  | 2 +-
 .../src/main/java/com/finproto/szse/bin/messages/Heartbeat.java | 2 +-
 28 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java
index 4337fd1..0a9e43c 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java
@@ -14,7 +14,7 @@ public class ConfirmExtend041 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java
index 373f9d0..578fd66 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java
@@ -14,7 +14,7 @@ public class ConfirmExtend042 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java
index 49d18a2..4d0ebeb 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java
@@ -14,7 +14,7 @@ public class ConfirmExtend043 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java
index 609f670..af9e27f 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java
@@ -14,7 +14,7 @@ public class ConfirmExtend044 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java
index 2c41e8c..764c0f4 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java
@@ -14,7 +14,7 @@ public class ConfirmExtend045 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java
index 3a7dc0a..f4958a3 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java
@@ -14,7 +14,7 @@ public class Extend041 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java
index 491766d..7353ef7 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java
@@ -14,7 +14,7 @@ public class Extend042 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java
index de963cd..3fcfd6f 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java
@@ -14,7 +14,7 @@ public class Extend043 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java
index aa23b27..0b6b066 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java
@@ -14,7 +14,7 @@ public class Extend044 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java
index 4086ae8..dedda75 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java
@@ -14,7 +14,7 @@ public class Extend045 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java
index 400bdd0..e58bdcc 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder041 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java
index eef02f0..bad5f0e 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder042 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java
index 01f43f9..80c9bb2 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder043 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java
index 253e558..03c4c31 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder044 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java
index c89907e..e9c1e66 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder045 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java
index c90284b..32223c6 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java
@@ -14,7 +14,7 @@ public class Heartbeat implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java
index 79019eb..498a774 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java
@@ -14,7 +14,7 @@ public class QuoteExtend071 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java
index 932549e..01ff4f3 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureCofirmExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java
index 5c23cec..23034b3 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureCofirmExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java
index 2fb2ab9..a489dec 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureConfirmExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java
index df3faa7..eadab1c 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureConfirmExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java
index bb63a9d..a77a391 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportAckExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java
index 243d0e8..d355914 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportAckExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java
index 8bc38be..151ec61 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java
index ddd9f60..768555b 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java
index 765c155..3ec186a 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java
@@ -14,7 +14,7 @@ public class EmptyPacket implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java
index 988f970..5626874 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java
@@ -14,7 +14,7 @@ public class Heartbeat implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java
index 92acb8d..ea9135f 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java
@@ -14,7 +14,7 @@ public class Heartbeat implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
-- 
2.43.0


From 24902b8610786503616dddfa9c2673d4d4ce6302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:52 +0000
Subject: [PATCH 02/10] fix: absent or empty text in a left-padded fixed-width
 field wrote no bytes

---
 .../src/main/java/com/finproto/codec/BinaryCodec.java | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/codec/src/main/java/com/finproto/codec/BinaryCodec.java b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
index 5d8d8e6..b4c354e 100644
--- a/codec/src/main/java/com/finproto/codec/BinaryCodec.java
+++ b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
@@ -17,12 +17,15 @@ public interface BinaryCodec {
   default void writeFixedString(
       ByteBuf byteBuf, String value, int len, char padChar, boolean padLeft) {
     int writedLen = 0;
+    byte[] bytes = null;
     if (!StringUtil.isNullOrEmpty(value)) {
-      byte[] bytes = value.getBytes(StandardCharsets.UTF_8);
+      bytes = value.getBytes(StandardCharsets.UTF_8);
       writedLen = Math.min(bytes.length, len);
-      if (padLeft && writedLen < len) {
-        padChar(byteBuf, len - writedLen, padChar);
-      }
+    }
+    if (padLeft && writedLen < len) {
+      padChar(byteBuf, len - writedLen, padChar);
+    }
+    if (bytes != null) {
       byteBuf.writeBytes(bytes, 0, writedLen);
     }
     if (!padLeft && writedLen < len) {
-- 
2.43.0


From 3f35a6feead784325dd24baada6ee0c71ca1b419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 03/10] fix: clear() of the 32- and 64-bit bitmaps set the
 position instead

---
 codec/src/main/java/com/finproto/bitmap/IntBitMap.java  | 2 +-
 codec/src/main/java/com/finproto/bitmap/LongBitMap.java | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/src/main/java/com/finproto/bitmap/IntBitMap.java b/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
index 78dcf42..f563abc 100644
--- a/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
@@ -14,7 +14,7 @@ public final class IntBitMap implements BitMap {
   @Override
   public void clear(int pos) {
     int bit = 1 << (31 - pos);
-    bits |= bit;
+    bits &= ~bit;
   }
 
   @Override
diff --git a/codec/src/main/java/com/finproto/bitmap/LongBitMap.java b/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
index 2e9d1d7..018aba8 100644
--- a/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
@@ -14,7 +14,7 @@ public final class LongBitMap implements BitMap {
   @Override
   public void clear(int pos) {
     long bit = 1L << (63 - pos);
-    bits |= bit;
+    bits &= ~bit;
   }
 
   @Override
-- 
2.43.0


From 190c74105718ae1a528e95bb4288ef755256da2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 04/10] fix: frame checksum covered everything readable in the
 buffer, not just the frame

---
 .../main/java/com/finproto/sample/messages/RootPacket.java  | 6 +++++-
 .../main/java/com/finproto/sse/bin/messages/SseBinary.java  | 6 +++++-
 .../java/com/finproto/szse/bin/messages/SzseBinary.java     | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
index 1cafb0c..355050d 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
@@ -50,6 +50,7 @@ public class RootPacket implements BinaryCodec {
 
   @Override
   public void encode(ByteBuf byteBuf) {
+    int frameStart = byteBuf.writerIndex();
     byteBuf.writeShortLE(this.msgType);
     int payloadLenPos = byteBuf.writerIndex();
     byteBuf.writeIntLE(0);
@@ -64,7 +65,10 @@ public class RootPacket implements BinaryCodec {
     ChecksumService<ByteBuf, Integer> checksumService =
         ChecksumServiceFactory.getInstance().getChecksumService("CRC32");
     if (checksumService != null) {
-      this.checksum = (int) checksumService.calc(byteBuf);
+      this.checksum =
+          (int)
+              checksumService.calc(
+                  byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));
     }
     byteBuf.writeIntLE(this.checksum);
   }
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
index 6827a93..0cc1acb 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
@@ -59,6 +59,7 @@ public class SseBinary implements BinaryCodec {
 
   @Override
   public void encode(ByteBuf byteBuf) {
+    int frameStart = byteBuf.writerIndex();
     byteBuf.writeInt(this.msgType);
     byteBuf.writeLong(this.msgSeqNum);
     int msgBodyLenPos = byteBuf.writerIndex();
@@ -74,7 +75,10 @@ public class SseBinary implements BinaryCodec {
     ChecksumService<ByteBuf, Integer> checksumService =
         ChecksumServiceFactory.getInstance().getChecksumService("SSE_BIN");
     if (checksumService != null) {
-      this.checksum = (int) checksumService.calc(byteBuf);
+      this.checksum =
+          (int)
+              checksumService.calc(
+                  byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));
     }
     byteBuf.writeInt(this.checksum);
   }
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
index a064023..e1a5d52 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
@@ -50,6 +50,7 @@ public class SzseBinary implements BinaryCodec {
 
   @Override
   public void encode(ByteBuf byteBuf) {
+    int frameStart = byteBuf.writerIndex();
     byteBuf.writeInt(this.msgType);
     int bodyLengthPos = byteBuf.writerIndex();
     byteBuf.writeInt(0);
@@ -64,7 +65,10 @@ public class SzseBinary implements BinaryCodec {
     ChecksumService<ByteBuf, Integer> checksumService =
         ChecksumServiceFactory.getInstance().getChecksumService("SZSE_BIN");
     if (checksumService != null) {
-      this.checksum = (int) checksumService.calc(byteBuf);
+      this.checksum =
+          (int)
+              checksumService.calc(
+                  byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));
     }
     byteBuf.writeInt(this.checksum);
   }
-- 
2.43.0


From 8338cad0ccc5a5360fc2002074543accdb2c383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 05/10] fix: decoding text and lists read beyond the readable
 bytes or ignored absurd lengths

---
 .../java/com/finproto/codec/BinaryCodec.java  | 11 ++++++++-
 .../risk/bin/messages/CancelReject.java       | 19 +++++++--------
 .../risk/bin/messages/ExecutionReport.java    | 13 +++++------
 .../finproto/risk/bin/messages/NewOrder.java  | 17 +++++++-------
 .../risk/bin/messages/OrderCancel.java        | 23 ++++++++-----------
 .../risk/bin/messages/OrderConfirm.java       | 18 +++++++--------
 .../risk/bin/messages/RiskResult.java         |  9 ++++----
 .../sample/messages/StringPacket.java         | 16 ++++---------
 .../szse/bin/messages/Extend206302.java       |  5 ++--
 .../szse/bin/messages/PlatformInfo.java       |  4 ++++
 .../bin/messages/ReportSynchronization.java   |  4 ++++
 11 files changed, 68 insertions(+), 71 deletions(-)

diff --git a/codec/src/main/java/com/finproto/codec/BinaryCodec.java b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
index b4c354e..2a051e2 100644
--- a/codec/src/main/java/com/finproto/codec/BinaryCodec.java
+++ b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
@@ -58,12 +58,21 @@ public interface BinaryCodec {
     return s.substring(start, end);
   }
 
+  /** Reads len bytes of text; fails when fewer are readable instead of reading beyond them. */
+  default String readString(ByteBuf byteBuf, int len) {
+    if (len < 0 || len > byteBuf.readableBytes()) {
+      throw new IndexOutOfBoundsException(
+          "text of " + Integer.toUnsignedString(len) + " bytes exceeds " + byteBuf);
+    }
+    return byteBuf.readCharSequence(len, StandardCharsets.UTF_8).toString();
+  }
+
   default String readFixedString(ByteBuf byteBuf, int len) {
     return readFixedString(byteBuf, len, ' ', false);
   }
 
   default String readFixedString(ByteBuf byteBuf, int len, char trimPadChar, boolean padLeft) {
-    String value = byteBuf.readCharSequence(len, StandardCharsets.UTF_8).toString();
+    String value = readString(byteBuf, len);
     if (padLeft) {
       return trimByChar(value, trimPadChar, true);
     } else {
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
index 923489e..5d5aafe 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
@@ -94,23 +94,20 @@ public class CancelReject implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
-    if (uniqueOrderIdLen > 0) {
-      this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+    if (uniqueOrderIdLen != 0) {
+      this.uniqueOrderId = readString(byteBuf, uniqueOrderIdLen);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
-    if (uniqueOrigOrderIdLen > 0) {
-      this.uniqueOrigOrderId =
-          byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+    if (uniqueOrigOrderIdLen != 0) {
+      this.uniqueOrigOrderId = readString(byteBuf, uniqueOrigOrderIdLen);
     }
     int clOrdIdLen = byteBuf.readInt();
-    if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+    if (clOrdIdLen != 0) {
+      this.clOrdId = readString(byteBuf, clOrdIdLen);
     }
     int origClOrdIdLen = byteBuf.readInt();
-    if (origClOrdIdLen > 0) {
-      this.origClOrdId =
-          byteBuf.readCharSequence(origClOrdIdLen, StandardCharsets.UTF_8).toString();
+    if (origClOrdIdLen != 0) {
+      this.origClOrdId = readString(byteBuf, origClOrdIdLen);
     }
     this.cxlRejReason = byteBuf.readInt();
   }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
index 2cadc59..b574500 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
@@ -97,17 +97,16 @@ public class ExecutionReport implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
-    if (uniqueOrderIdLen > 0) {
-      this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+    if (uniqueOrderIdLen != 0) {
+      this.uniqueOrderId = readString(byteBuf, uniqueOrderIdLen);
     }
     int clOrdIdLen = byteBuf.readInt();
-    if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+    if (clOrdIdLen != 0) {
+      this.clOrdId = readString(byteBuf, clOrdIdLen);
     }
     int ordCnfmIdLen = byteBuf.readInt();
-    if (ordCnfmIdLen > 0) {
-      this.ordCnfmId = byteBuf.readCharSequence(ordCnfmIdLen, StandardCharsets.UTF_8).toString();
+    if (ordCnfmIdLen != 0) {
+      this.ordCnfmId = readString(byteBuf, ordCnfmIdLen);
     }
     this.lastPx = byteBuf.readLong();
     this.lastQty = byteBuf.readLong();
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
index 78dcf79..029f5a3 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
@@ -123,25 +123,24 @@ public class NewOrder implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
-    if (uniqueOrderIdLen > 0) {
-      this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+    if (uniqueOrderIdLen != 0) {
+      this.uniqueOrderId = readString(byteBuf, uniqueOrderIdLen);
     }
     int clOrdIdLen = byteBuf.readInt();
-    if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+    if (clOrdIdLen != 0) {
+      this.clOrdId = readString(byteBuf, clOrdIdLen);
     }
     int securityIdLen = byteBuf.readInt();
-    if (securityIdLen > 0) {
-      this.securityId = byteBuf.readCharSequence(securityIdLen, StandardCharsets.UTF_8).toString();
+    if (securityIdLen != 0) {
+      this.securityId = readString(byteBuf, securityIdLen);
     }
     this.side = readFixedString(byteBuf, 1);
     this.price = byteBuf.readLong();
     this.orderQty = byteBuf.readLong();
     this.ordType = readFixedString(byteBuf, 1);
     int accountLen = byteBuf.readInt();
-    if (accountLen > 0) {
-      this.account = byteBuf.readCharSequence(accountLen, StandardCharsets.UTF_8).toString();
+    if (accountLen != 0) {
+      this.account = readString(byteBuf, accountLen);
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
index 458743d..d1e8e6b 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
@@ -100,27 +100,24 @@ public class OrderCancel implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
-    if (uniqueOrderIdLen > 0) {
-      this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+    if (uniqueOrderIdLen != 0) {
+      this.uniqueOrderId = readString(byteBuf, uniqueOrderIdLen);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
-    if (uniqueOrigOrderIdLen > 0) {
-      this.uniqueOrigOrderId =
-          byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+    if (uniqueOrigOrderIdLen != 0) {
+      this.uniqueOrigOrderId = readString(byteBuf, uniqueOrigOrderIdLen);
     }
     int clOrdIdLen = byteBuf.readInt();
-    if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+    if (clOrdIdLen != 0) {
+      this.clOrdId = readString(byteBuf, clOrdIdLen);
     }
     int origClOrdIdLen = byteBuf.readInt();
-    if (origClOrdIdLen > 0) {
-      this.origClOrdId =
-          byteBuf.readCharSequence(origClOrdIdLen, StandardCharsets.UTF_8).toString();
+    if (origClOrdIdLen != 0) {
+      this.origClOrdId = readString(byteBuf, origClOrdIdLen);
     }
     int securityIdLen = byteBuf.readInt();
-    if (securityIdLen > 0) {
-      this.securityId = byteBuf.readCharSequence(securityIdLen, StandardCharsets.UTF_8).toString();
+    if (securityIdLen != 0) {
+      this.securityId = readString(byteBuf, securityIdLen);
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
index 2d23d1e..fea372b 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
@@ -103,24 +103,22 @@ public class OrderConfirm implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
-    if (uniqueOrderIdLen > 0) {
-      this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+    if (uniqueOrderIdLen != 0) {
+      this.uniqueOrderId = readString(byteBuf, uniqueOrderIdLen);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
-    if (uniqueOrigOrderIdLen > 0) {
-      this.uniqueOrigOrderId =
-          byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+    if (uniqueOrigOrderIdLen != 0) {
+      this.uniqueOrigOrderId = readString(byteBuf, uniqueOrigOrderIdLen);
     }
     int clOrdIdLen = byteBuf.readInt();
-    if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+    if (clOrdIdLen != 0) {
+      this.clOrdId = readString(byteBuf, clOrdIdLen);
     }
     this.execType = readFixedString(byteBuf, 1);
     this.ordRejReason = byteBuf.readInt();
     int ordCnfmIdLen = byteBuf.readInt();
-    if (ordCnfmIdLen > 0) {
-      this.ordCnfmId = byteBuf.readCharSequence(ordCnfmIdLen, StandardCharsets.UTF_8).toString();
+    if (ordCnfmIdLen != 0) {
+      this.ordCnfmId = readString(byteBuf, ordCnfmIdLen);
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
index e6fe4c8..43db061 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
@@ -59,14 +59,13 @@ public class RiskResult implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
-    if (uniqueOrderIdLen > 0) {
-      this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+    if (uniqueOrderIdLen != 0) {
+      this.uniqueOrderId = readString(byteBuf, uniqueOrderIdLen);
     }
     this.riskStatus = byteBuf.readByte();
     int riskReasonLen = byteBuf.readInt();
-    if (riskReasonLen > 0) {
-      this.riskReason = byteBuf.readCharSequence(riskReasonLen, StandardCharsets.UTF_8).toString();
+    if (riskReasonLen != 0) {
+      this.riskReason = readString(byteBuf, riskReasonLen);
     }
   }
 
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index 7433f9b..efcb0e3 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -211,13 +211,11 @@ public class StringPacket implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     short fieldDynamicStringLen = byteBuf.readShortLE();
     if (fieldDynamicStringLen > 0) {
-      this.fieldDynamicString =
-          byteBuf.readCharSequence(fieldDynamicStringLen, StandardCharsets.UTF_8).toString();
+      this.fieldDynamicString = readString(byteBuf, fieldDynamicStringLen);
     }
     short fieldDynamicString1Len = byteBuf.readShortLE();
     if (fieldDynamicString1Len > 0) {
-      this.fieldDynamicString1 =
-          byteBuf.readCharSequence(fieldDynamicString1Len, StandardCharsets.UTF_8).toString();
+      this.fieldDynamicString1 = readString(byteBuf, fieldDynamicString1Len);
     }
     this.fieldFixedString1 = readFixedString(byteBuf, 1, '0', true);
     this.fieldFixedString10 = readFixedString(byteBuf, 10, '0', true);
@@ -229,10 +227,7 @@ public class StringPacket implements BinaryCodec {
       for (int i = 0; i < fieldDynamicStringListSize; i++) {
         short fieldDynamicStringListLen = byteBuf.readShortLE();
         if (fieldDynamicStringListLen > 0) {
-          this.fieldDynamicStringList.add(
-              byteBuf
-                  .readCharSequence(fieldDynamicStringListLen, StandardCharsets.UTF_8)
-                  .toString());
+          this.fieldDynamicStringList.add(readString(byteBuf, fieldDynamicStringListLen));
         }
       }
     }
@@ -242,10 +237,7 @@ public class StringPacket implements BinaryCodec {
       for (int i = 0; i < fieldDynamicString1ListSize; i++) {
         short fieldDynamicString1ListLen = byteBuf.readShortLE();
         if (fieldDynamicString1ListLen > 0) {
-          this.fieldDynamicString1List.add(
-              byteBuf
-                  .readCharSequence(fieldDynamicString1ListLen, StandardCharsets.UTF_8)
-                  .toString());
+          this.fieldDynamicString1List.add(readString(byteBuf, fieldDynamicString1ListLen));
         }
       }
     }
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
index 995c7f9..6b82a12 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
@@ -109,9 +109,8 @@ public class Extend206302 implements BinaryCodec {
     this.lotType = readFixedString(byteBuf, 1);
     this.imcrejectTextLen = byteBuf.readInt();
     int imcrejectTextLen = byteBuf.readInt();
-    if (imcrejectTextLen > 0) {
-      this.imcrejectText =
-          byteBuf.readCharSequence(imcrejectTextLen, StandardCharsets.UTF_8).toString();
+    if (imcrejectTextLen != 0) {
+      this.imcrejectText = readString(byteBuf, imcrejectTextLen);
     }
   }
 
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
index 3ce9ee0..9c32e1f 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
@@ -44,6 +44,10 @@ public class PlatformInfo implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShort();
     int platformPartitionSize = byteBuf.readInt();
+    if (platformPartitionSize < 0) {
+      throw new IndexOutOfBoundsException(
+          "list of " + Integer.toUnsignedString(platformPartitionSize) + " elements");
+    }
     if (platformPartitionSize > 0) {
       this.platformPartition = new ArrayList<>();
       for (int i = 0; i < platformPartitionSize; i++) {
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
index 5a8674c..4c03ceb 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
@@ -33,6 +33,10 @@ public class ReportSynchronization implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int partitionReportSize = byteBuf.readInt();
+    if (partitionReportSize < 0) {
+      throw new IndexOutOfBoundsException(
+          "list of " + Integer.toUnsignedString(partitionReportSize) + " elements");
+    }
     if (partitionReportSize > 0) {
       this.partitionReport = new ArrayList<>();
       for (int i = 0; i < partitionReportSize; i++) {
-- 
2.43.0


From 44e06ea6aaed283e5490650c6229f06816b51846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 06/10] fix: 16-bit counts and lengths above 32767 were lost on
 decode, above 65535 written truncated

---
 .../bjse/trade/messages/PlatformInfo.java     |  4 +-
 .../bjse/trade/messages/QuoteResponse.java    |  4 +-
 .../messages/QuoteStatusReportExtend070.java  |  4 +-
 .../trade/messages/ReportSynchronization.java |  4 +-
 .../java/com/finproto/codec/BinaryCodec.java  |  8 ++++
 .../finproto/sample/messages/BasicPacket.java | 44 +++++++++----------
 .../sample/messages/NestedPacket.java         |  8 ++--
 .../sample/messages/StringPacket.java         | 40 ++++++++---------
 .../finproto/sample/messages/SubPacket.java   |  4 +-
 .../sse/bin/messages/ExecRptInfo.java         |  8 ++--
 .../sse/bin/messages/ExecRptSync.java         |  4 +-
 .../sse/bin/messages/ExecRptSyncRsp.java      |  4 +-
 12 files changed, 72 insertions(+), 64 deletions(-)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
index ff194c1..726d8a3 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
@@ -33,7 +33,7 @@ public class PlatformInfo implements BinaryCodec {
     if (null == this.noPartitions || this.noPartitions.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.noPartitions.size());
+      byteBuf.writeShortLE(unsignedShort(this.noPartitions.size()));
       for (int i = 0; i < this.noPartitions.size(); i++) {
         this.noPartitions.get(i).encode(byteBuf);
       }
@@ -43,7 +43,7 @@ public class PlatformInfo implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShortLE();
-    short noPartitionsSize = byteBuf.readShortLE();
+    int noPartitionsSize = byteBuf.readUnsignedShortLE();
     if (noPartitionsSize > 0) {
       this.noPartitions = new ArrayList<>();
       for (int i = 0; i < noPartitionsSize; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
index 07fffbd..159f4a8 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
@@ -215,7 +215,7 @@ public class QuoteResponse implements BinaryCodec {
     if (null == this.quote2 || this.quote2.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.quote2.size());
+      byteBuf.writeShortLE(unsignedShort(this.quote2.size()));
       for (int i = 0; i < this.quote2.size(); i++) {
         this.quote2.get(i).encode(byteBuf);
       }
@@ -245,7 +245,7 @@ public class QuoteResponse implements BinaryCodec {
     this.validUntilTime = byteBuf.readLongLE();
     this.quoteType = byteBuf.readByte();
     this.priceType = byteBuf.readByte();
-    short quote2Size = byteBuf.readShortLE();
+    int quote2Size = byteBuf.readUnsignedShortLE();
     if (quote2Size > 0) {
       this.quote2 = new ArrayList<>();
       for (int i = 0; i < quote2Size; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
index 8c2e0ae..e4f514a 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
@@ -133,7 +133,7 @@ public class QuoteStatusReportExtend070 implements BinaryCodec {
     if (null == this.quote1 || this.quote1.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.quote1.size());
+      byteBuf.writeShortLE(unsignedShort(this.quote1.size()));
       for (int i = 0; i < this.quote1.size(); i++) {
         this.quote1.get(i).encode(byteBuf);
       }
@@ -153,7 +153,7 @@ public class QuoteStatusReportExtend070 implements BinaryCodec {
     this.cashMargin = readFixedString(byteBuf, 1);
     this.counterPartyPbuid = readFixedString(byteBuf, 6);
     this.memo = readFixedString(byteBuf, 120);
-    short quote1Size = byteBuf.readShortLE();
+    int quote1Size = byteBuf.readUnsignedShortLE();
     if (quote1Size > 0) {
       this.quote1 = new ArrayList<>();
       for (int i = 0; i < quote1Size; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
index 5e50c56..d00cf42 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
@@ -23,7 +23,7 @@ public class ReportSynchronization implements BinaryCodec {
     if (null == this.reportPartitionSync || this.reportPartitionSync.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.reportPartitionSync.size());
+      byteBuf.writeShortLE(unsignedShort(this.reportPartitionSync.size()));
       for (int i = 0; i < this.reportPartitionSync.size(); i++) {
         this.reportPartitionSync.get(i).encode(byteBuf);
       }
@@ -32,7 +32,7 @@ public class ReportSynchronization implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short reportPartitionSyncSize = byteBuf.readShortLE();
+    int reportPartitionSyncSize = byteBuf.readUnsignedShortLE();
     if (reportPartitionSyncSize > 0) {
       this.reportPartitionSync = new ArrayList<>();
       for (int i = 0; i < reportPartitionSyncSize; i++) {
diff --git a/codec/src/main/java/com/finproto/codec/BinaryCodec.java b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
index 2a051e2..db70c87 100644
--- a/codec/src/main/java/com/finproto/codec/BinaryCodec.java
+++ b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
@@ -10,6 +10,14 @@ public interface BinaryCodec {
 
   void decode(ByteBuf byteBuf);
 
+  /** Returns a count or length that fits its 16-bit prefix; refuses any other. */
+  default int unsignedShort(int value) {
+    if (value > 0xFFFF) {
+      throw new IllegalArgumentException(value + " does not fit a 16-bit prefix");
+    }
+    return value;
+  }
+
   default void writeFixedString(ByteBuf byteBuf, String value, int len) {
     writeFixedString(byteBuf, value, len, ' ', false);
   }
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
index 43445e1..d817cb5 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
@@ -223,7 +223,7 @@ public class BasicPacket implements BinaryCodec {
     if (null == this.fieldI8List || this.fieldI8List.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.fieldI8List.size());
+      byteBuf.writeShortLE(unsignedShort(this.fieldI8List.size()));
       for (int i = 0; i < this.fieldI8List.size(); i++) {
         byteBuf.writeByte(this.fieldI8List.get(i));
       }
@@ -231,7 +231,7 @@ public class BasicPacket implements BinaryCodec {
     if (null == this.fieldI16List || this.fieldI16List.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.fieldI16List.size());
+      byteBuf.writeShortLE(unsignedShort(this.fieldI16List.size()));
       for (int i = 0; i < this.fieldI16List.size(); i++) {
         byteBuf.writeShortLE(this.fieldI16List.get(i));
       }
@@ -239,7 +239,7 @@ public class BasicPacket implements BinaryCodec {
     if (null == this.fieldI32List || this.fieldI32List.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.fieldI32List.size());
+      byteBuf.writeShortLE(unsignedShort(this.fieldI32List.size()));
       for (int i = 0; i < this.fieldI32List.size(); i++) {
         byteBuf.writeIntLE(this.fieldI32List.get(i));
       }
@@ -247,7 +247,7 @@ public class BasicPacket implements BinaryCodec {
     if (null == this.fieldI64List || this.fieldI64List.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.fieldI64List.size());
+      byteBuf.writeShortLE(unsignedShort(this.fieldI64List.size()));
       for (int i = 0; i < this.fieldI64List.size(); i++) {
         byteBuf.writeLongLE(this.fieldI64List.get(i));
       }
@@ -255,7 +255,7 @@ public class BasicPacket implements BinaryCodec {
     if (null == this.fieldCharList || this.fieldCharList.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.fieldCharList.size());
+      byteBuf.writeShortLE(unsignedShort(this.fieldCharList.size()));
       for (int i = 0; i < this.fieldCharList.size(); i++) {
         writeFixedString(byteBuf, this.fieldCharList.get(i), 1, '0', true);
       }
@@ -263,7 +263,7 @@ public class BasicPacket implements BinaryCodec {
     if (null == this.fieldU8List || this.fieldU8List.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.fieldU8List.size());
+      byteBuf.writeShortLE(unsignedShort(this.fieldU8List.size()));
       for (int i = 0; i < this.fieldU8List.size(); i++) {
         byteBuf.writeByte(this.fieldU8List.get(i));
       }
@@ -271,7 +271,7 @@ public class BasicPacket implements BinaryCodec {
     if (null == this.fieldU16List || this.fieldU16List.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.fieldU16List.size());
+      byteBuf.writeShortLE(unsignedShort(this.fieldU16List.size()));
       for (int i = 0; i < this.fieldU16List.size(); i++) {
         byteBuf.writeShortLE(this.fieldU16List.get(i));
       }
@@ -279,7 +279,7 @@ public class BasicPacket implements BinaryCodec {
     if (null == this.fieldU32List || this.fieldU32List.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.fieldU32List.size());
+      byteBuf.writeShortLE(unsignedShort(this.fieldU32List.size()));
       for (int i = 0; i < this.fieldU32List.size(); i++) {
         byteBuf.writeIntLE(this.fieldU32List.get(i));
       }
@@ -287,7 +287,7 @@ public class BasicPacket implements BinaryCodec {
     if (null == this.fieldU64List || this.fieldU64List.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.fieldU64List.size());
+      byteBuf.writeShortLE(unsignedShort(this.fieldU64List.size()));
       for (int i = 0; i < this.fieldU64List.size(); i++) {
         byteBuf.writeLongLE(this.fieldU64List.get(i));
       }
@@ -295,7 +295,7 @@ public class BasicPacket implements BinaryCodec {
     if (null == this.fieldF32List || this.fieldF32List.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.fieldF32List.size());
+      byteBuf.writeShortLE(unsignedShort(this.fieldF32List.size()));
       for (int i = 0; i < this.fieldF32List.size(); i++) {
         byteBuf.writeFloatLE(this.fieldF32List.get(i));
       }
@@ -303,7 +303,7 @@ public class BasicPacket implements BinaryCodec {
     if (null == this.fieldF64List || this.fieldF64List.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.fieldF64List.size());
+      byteBuf.writeShortLE(unsignedShort(this.fieldF64List.size()));
       for (int i = 0; i < this.fieldF64List.size(); i++) {
         byteBuf.writeDoubleLE(this.fieldF64List.get(i));
       }
@@ -323,77 +323,77 @@ public class BasicPacket implements BinaryCodec {
     this.fieldU64 = byteBuf.readLongLE();
     this.fieldF32 = byteBuf.readFloatLE();
     this.fieldF64 = byteBuf.readDoubleLE();
-    short fieldI8ListSize = byteBuf.readShortLE();
+    int fieldI8ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI8ListSize > 0) {
       this.fieldI8List = new ArrayList<>();
       for (int i = 0; i < fieldI8ListSize; i++) {
         this.fieldI8List.add(byteBuf.readByte());
       }
     }
-    short fieldI16ListSize = byteBuf.readShortLE();
+    int fieldI16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI16ListSize > 0) {
       this.fieldI16List = new ArrayList<>();
       for (int i = 0; i < fieldI16ListSize; i++) {
         this.fieldI16List.add(byteBuf.readShortLE());
       }
     }
-    short fieldI32ListSize = byteBuf.readShortLE();
+    int fieldI32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI32ListSize > 0) {
       this.fieldI32List = new ArrayList<>();
       for (int i = 0; i < fieldI32ListSize; i++) {
         this.fieldI32List.add(byteBuf.readIntLE());
       }
     }
-    short fieldI64ListSize = byteBuf.readShortLE();
+    int fieldI64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI64ListSize > 0) {
       this.fieldI64List = new ArrayList<>();
       for (int i = 0; i < fieldI64ListSize; i++) {
         this.fieldI64List.add(byteBuf.readLongLE());
       }
     }
-    short fieldCharListSize = byteBuf.readShortLE();
+    int fieldCharListSize = byteBuf.readUnsignedShortLE();
     if (fieldCharListSize > 0) {
       this.fieldCharList = new ArrayList<>();
       for (int i = 0; i < fieldCharListSize; i++) {
         this.fieldCharList.add(readFixedString(byteBuf, 1, '0', true));
       }
     }
-    short fieldU8ListSize = byteBuf.readShortLE();
+    int fieldU8ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU8ListSize > 0) {
       this.fieldU8List = new ArrayList<>();
       for (int i = 0; i < fieldU8ListSize; i++) {
         this.fieldU8List.add(byteBuf.readByte());
       }
     }
-    short fieldU16ListSize = byteBuf.readShortLE();
+    int fieldU16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU16ListSize > 0) {
       this.fieldU16List = new ArrayList<>();
       for (int i = 0; i < fieldU16ListSize; i++) {
         this.fieldU16List.add(byteBuf.readShortLE());
       }
     }
-    short fieldU32ListSize = byteBuf.readShortLE();
+    int fieldU32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU32ListSize > 0) {
       this.fieldU32List = new ArrayList<>();
       for (int i = 0; i < fieldU32ListSize; i++) {
         this.fieldU32List.add(byteBuf.readIntLE());
       }
     }
-    short fieldU64ListSize = byteBuf.readShortLE();
+    int fieldU64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU64ListSize > 0) {
       this.fieldU64List = new ArrayList<>();
       for (int i = 0; i < fieldU64ListSize; i++) {
         this.fieldU64List.add(byteBuf.readLongLE());
       }
     }
-    short fieldF32ListSize = byteBuf.readShortLE();
+    int fieldF32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldF32ListSize > 0) {
       this.fieldF32List = new ArrayList<>();
       for (int i = 0; i < fieldF32ListSize; i++) {
         this.fieldF32List.add(byteBuf.readFloatLE());
       }
     }
-    short fieldF64ListSize = byteBuf.readShortLE();
+    int fieldF64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldF64ListSize > 0) {
       this.fieldF64List = new ArrayList<>();
       for (int i = 0; i < fieldF64ListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
index 35d56a4..7233baa 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
@@ -42,7 +42,7 @@ public class NestedPacket implements BinaryCodec {
     if (null == this.subPacketList || this.subPacketList.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.subPacketList.size());
+      byteBuf.writeShortLE(unsignedShort(this.subPacketList.size()));
       for (int i = 0; i < this.subPacketList.size(); i++) {
         this.subPacketList.get(i).encode(byteBuf);
       }
@@ -56,7 +56,7 @@ public class NestedPacket implements BinaryCodec {
       this.subPacket = new SubPacket();
     }
     this.subPacket.decode(byteBuf);
-    short subPacketListSize = byteBuf.readShortLE();
+    int subPacketListSize = byteBuf.readUnsignedShortLE();
     if (subPacketListSize > 0) {
       this.subPacketList = new ArrayList<>();
       for (int i = 0; i < subPacketListSize; i++) {
@@ -129,7 +129,7 @@ public class NestedPacket implements BinaryCodec {
       if (null == this.fieldI16List || this.fieldI16List.size() == 0) {
         byteBuf.writeShort(0);
       } else {
-        byteBuf.writeShortLE((short) this.fieldI16List.size());
+        byteBuf.writeShortLE(unsignedShort(this.fieldI16List.size()));
         for (int i = 0; i < this.fieldI16List.size(); i++) {
           byteBuf.writeShortLE(this.fieldI16List.get(i));
         }
@@ -139,7 +139,7 @@ public class NestedPacket implements BinaryCodec {
     @Override
     public void decode(ByteBuf byteBuf) {
       this.fieldU32 = byteBuf.readIntLE();
-      short fieldI16ListSize = byteBuf.readShortLE();
+      int fieldI16ListSize = byteBuf.readUnsignedShortLE();
       if (fieldI16ListSize > 0) {
         this.fieldI16List = new ArrayList<>();
         for (int i = 0; i < fieldI16ListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index efcb0e3..07b9a81 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -127,7 +127,7 @@ public class StringPacket implements BinaryCodec {
       byteBuf.writeShort(0);
     } else {
       byte[] bytes = this.fieldDynamicString.getBytes(StandardCharsets.UTF_8);
-      byteBuf.writeShortLE(bytes.length);
+      byteBuf.writeShortLE(unsignedShort(bytes.length));
       byteBuf.writeBytes(bytes);
     }
 
@@ -135,7 +135,7 @@ public class StringPacket implements BinaryCodec {
       byteBuf.writeShort(0);
     } else {
       byte[] bytes = this.fieldDynamicString1.getBytes(StandardCharsets.UTF_8);
-      byteBuf.writeShortLE(bytes.length);
+      byteBuf.writeShortLE(unsignedShort(bytes.length));
       byteBuf.writeBytes(bytes);
     }
 
@@ -146,13 +146,13 @@ public class StringPacket implements BinaryCodec {
     if (null == this.fieldDynamicStringList || this.fieldDynamicStringList.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.fieldDynamicStringList.size());
+      byteBuf.writeShortLE(unsignedShort(this.fieldDynamicStringList.size()));
       for (int i = 0; i < this.fieldDynamicStringList.size(); i++) {
         if (StringUtil.isNullOrEmpty(this.fieldDynamicStringList.get(i))) {
           byteBuf.writeShort(0);
         } else {
           byte[] bytes = this.fieldDynamicStringList.get(i).getBytes(StandardCharsets.UTF_8);
-          byteBuf.writeShortLE(bytes.length);
+          byteBuf.writeShortLE(unsignedShort(bytes.length));
           byteBuf.writeBytes(bytes);
         }
       }
@@ -160,13 +160,13 @@ public class StringPacket implements BinaryCodec {
     if (null == this.fieldDynamicString1List || this.fieldDynamicString1List.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.fieldDynamicString1List.size());
+      byteBuf.writeShortLE(unsignedShort(this.fieldDynamicString1List.size()));
       for (int i = 0; i < this.fieldDynamicString1List.size(); i++) {
         if (StringUtil.isNullOrEmpty(this.fieldDynamicString1List.get(i))) {
           byteBuf.writeShort(0);
         } else {
           byte[] bytes = this.fieldDynamicString1List.get(i).getBytes(StandardCharsets.UTF_8);
-          byteBuf.writeShortLE(bytes.length);
+          byteBuf.writeShortLE(unsignedShort(bytes.length));
           byteBuf.writeBytes(bytes);
         }
       }
@@ -174,7 +174,7 @@ public class StringPacket implements BinaryCodec {
     if (null == this.fieldFixedString1List || this.fieldFixedString1List.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.fieldFixedString1List.size());
+      byteBuf.writeShortLE(unsignedShort(this.fieldFixedString1List.size()));
       for (int i = 0; i < this.fieldFixedString1List.size(); i++) {
         writeFixedString(byteBuf, this.fieldFixedString1List.get(i), 1, '0', true);
       }
@@ -182,7 +182,7 @@ public class StringPacket implements BinaryCodec {
     if (null == this.fieldFixedString10List || this.fieldFixedString10List.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.fieldFixedString10List.size());
+      byteBuf.writeShortLE(unsignedShort(this.fieldFixedString10List.size()));
       for (int i = 0; i < this.fieldFixedString10List.size(); i++) {
         writeFixedString(byteBuf, this.fieldFixedString10List.get(i), 10, '0', true);
       }
@@ -190,7 +190,7 @@ public class StringPacket implements BinaryCodec {
     if (null == this.fieldFixedString10ListPad || this.fieldFixedString10ListPad.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.fieldFixedString10ListPad.size());
+      byteBuf.writeShortLE(unsignedShort(this.fieldFixedString10ListPad.size()));
       for (int i = 0; i < this.fieldFixedString10ListPad.size(); i++) {
         writeFixedString(byteBuf, this.fieldFixedString10ListPad.get(i), 10, '0', false);
       }
@@ -199,7 +199,7 @@ public class StringPacket implements BinaryCodec {
         || this.fieldFixedString10PadWithNullTerminatorList.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.fieldFixedString10PadWithNullTerminatorList.size());
+      byteBuf.writeShortLE(unsignedShort(this.fieldFixedString10PadWithNullTerminatorList.size()));
       for (int i = 0; i < this.fieldFixedString10PadWithNullTerminatorList.size(); i++) {
         writeFixedString(
             byteBuf, this.fieldFixedString10PadWithNullTerminatorList.get(i), 10, '\0', false);
@@ -209,11 +209,11 @@ public class StringPacket implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short fieldDynamicStringLen = byteBuf.readShortLE();
+    int fieldDynamicStringLen = byteBuf.readUnsignedShortLE();
     if (fieldDynamicStringLen > 0) {
       this.fieldDynamicString = readString(byteBuf, fieldDynamicStringLen);
     }
-    short fieldDynamicString1Len = byteBuf.readShortLE();
+    int fieldDynamicString1Len = byteBuf.readUnsignedShortLE();
     if (fieldDynamicString1Len > 0) {
       this.fieldDynamicString1 = readString(byteBuf, fieldDynamicString1Len);
     }
@@ -221,48 +221,48 @@ public class StringPacket implements BinaryCodec {
     this.fieldFixedString10 = readFixedString(byteBuf, 10, '0', true);
     this.fieldFixedString10Pad = readFixedString(byteBuf, 10, ' ', true);
     this.fieldFixedString10PadWithNullTerminator = readFixedString(byteBuf, 10, '\0', false);
-    short fieldDynamicStringListSize = byteBuf.readShortLE();
+    int fieldDynamicStringListSize = byteBuf.readUnsignedShortLE();
     if (fieldDynamicStringListSize > 0) {
       this.fieldDynamicStringList = new ArrayList<>();
       for (int i = 0; i < fieldDynamicStringListSize; i++) {
-        short fieldDynamicStringListLen = byteBuf.readShortLE();
+        int fieldDynamicStringListLen = byteBuf.readUnsignedShortLE();
         if (fieldDynamicStringListLen > 0) {
           this.fieldDynamicStringList.add(readString(byteBuf, fieldDynamicStringListLen));
         }
       }
     }
-    short fieldDynamicString1ListSize = byteBuf.readShortLE();
+    int fieldDynamicString1ListSize = byteBuf.readUnsignedShortLE();
     if (fieldDynamicString1ListSize > 0) {
       this.fieldDynamicString1List = new ArrayList<>();
       for (int i = 0; i < fieldDynamicString1ListSize; i++) {
-        short fieldDynamicString1ListLen = byteBuf.readShortLE();
+        int fieldDynamicString1ListLen = byteBuf.readUnsignedShortLE();
         if (fieldDynamicString1ListLen > 0) {
           this.fieldDynamicString1List.add(readString(byteBuf, fieldDynamicString1ListLen));
         }
       }
     }
-    short fieldFixedString1ListSize = byteBuf.readShortLE();
+    int fieldFixedString1ListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString1ListSize > 0) {
       this.fieldFixedString1List = new ArrayList<>();
       for (int i = 0; i < fieldFixedString1ListSize; i++) {
         this.fieldFixedString1List.add(readFixedString(byteBuf, 1, '0', true));
       }
     }
-    short fieldFixedString10ListSize = byteBuf.readShortLE();
+    int fieldFixedString10ListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10ListSize > 0) {
       this.fieldFixedString10List = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10ListSize; i++) {
         this.fieldFixedString10List.add(readFixedString(byteBuf, 10, '0', true));
       }
     }
-    short fieldFixedString10ListPadSize = byteBuf.readShortLE();
+    int fieldFixedString10ListPadSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10ListPadSize > 0) {
       this.fieldFixedString10ListPad = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10ListPadSize; i++) {
         this.fieldFixedString10ListPad.add(readFixedString(byteBuf, 10, '0', false));
       }
     }
-    short fieldFixedString10PadWithNullTerminatorListSize = byteBuf.readShortLE();
+    int fieldFixedString10PadWithNullTerminatorListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10PadWithNullTerminatorListSize > 0) {
       this.fieldFixedString10PadWithNullTerminatorList = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10PadWithNullTerminatorListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
index 5de2656..c826102 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
@@ -33,7 +33,7 @@ public class SubPacket implements BinaryCodec {
     if (null == this.fieldI16List || this.fieldI16List.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShortLE((short) this.fieldI16List.size());
+      byteBuf.writeShortLE(unsignedShort(this.fieldI16List.size()));
       for (int i = 0; i < this.fieldI16List.size(); i++) {
         byteBuf.writeShortLE(this.fieldI16List.get(i));
       }
@@ -43,7 +43,7 @@ public class SubPacket implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     this.fieldU32 = byteBuf.readIntLE();
-    short fieldI16ListSize = byteBuf.readShortLE();
+    int fieldI16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI16ListSize > 0) {
       this.fieldI16List = new ArrayList<>();
       for (int i = 0; i < fieldI16ListSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
index 8d6906a..74d0b2c 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
@@ -42,7 +42,7 @@ public class ExecRptInfo implements BinaryCodec {
     if (null == this.pbu || this.pbu.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShort((short) this.pbu.size());
+      byteBuf.writeShort(unsignedShort(this.pbu.size()));
       for (int i = 0; i < this.pbu.size(); i++) {
         writeFixedString(byteBuf, this.pbu.get(i), 8);
       }
@@ -50,7 +50,7 @@ public class ExecRptInfo implements BinaryCodec {
     if (null == this.setId || this.setId.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShort((short) this.setId.size());
+      byteBuf.writeShort(unsignedShort(this.setId.size()));
       for (int i = 0; i < this.setId.size(); i++) {
         byteBuf.writeInt(this.setId.get(i));
       }
@@ -60,14 +60,14 @@ public class ExecRptInfo implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShort();
-    short pbuSize = byteBuf.readShort();
+    int pbuSize = byteBuf.readUnsignedShort();
     if (pbuSize > 0) {
       this.pbu = new ArrayList<>();
       for (int i = 0; i < pbuSize; i++) {
         this.pbu.add(readFixedString(byteBuf, 8));
       }
     }
-    short setIdSize = byteBuf.readShort();
+    int setIdSize = byteBuf.readUnsignedShort();
     if (setIdSize > 0) {
       this.setId = new ArrayList<>();
       for (int i = 0; i < setIdSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
index 200e8f8..98ac64b 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
@@ -23,7 +23,7 @@ public class ExecRptSync implements BinaryCodec {
     if (null == this.subExecRptSync || this.subExecRptSync.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShort((short) this.subExecRptSync.size());
+      byteBuf.writeShort(unsignedShort(this.subExecRptSync.size()));
       for (int i = 0; i < this.subExecRptSync.size(); i++) {
         this.subExecRptSync.get(i).encode(byteBuf);
       }
@@ -32,7 +32,7 @@ public class ExecRptSync implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short subExecRptSyncSize = byteBuf.readShort();
+    int subExecRptSyncSize = byteBuf.readUnsignedShort();
     if (subExecRptSyncSize > 0) {
       this.subExecRptSync = new ArrayList<>();
       for (int i = 0; i < subExecRptSyncSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
index e77621b..987b9b5 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
@@ -23,7 +23,7 @@ public class ExecRptSyncRsp implements BinaryCodec {
     if (null == this.subExecRptSyncRsp || this.subExecRptSyncRsp.size() == 0) {
       byteBuf.writeShort(0);
     } else {
-      byteBuf.writeShort((short) this.subExecRptSyncRsp.size());
+      byteBuf.writeShort(unsignedShort(this.subExecRptSyncRsp.size()));
       for (int i = 0; i < this.subExecRptSyncRsp.size(); i++) {
         this.subExecRptSyncRsp.get(i).encode(byteBuf);
       }
@@ -32,7 +32,7 @@ public class ExecRptSyncRsp implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short subExecRptSyncRspSize = byteBuf.readShort();
+    int subExecRptSyncRspSize = byteBuf.readUnsignedShort();
     if (subExecRptSyncRspSize > 0) {
       this.subExecRptSyncRsp = new ArrayList<>();
       for (int i = 0; i < subExecRptSyncRspSize; i++) {
-- 
2.43.0


From 0b93083d8a84efc360dc0d91c36fb68748a7e523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 07/10] fix: empty elements of variable-length text lists were
 dropped on decode

---
 .../main/java/com/finproto/sample/messages/StringPacket.java  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index 07b9a81..d80bd58 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -228,6 +228,8 @@ public class StringPacket implements BinaryCodec {
         int fieldDynamicStringListLen = byteBuf.readUnsignedShortLE();
         if (fieldDynamicStringListLen > 0) {
           this.fieldDynamicStringList.add(readString(byteBuf, fieldDynamicStringListLen));
+        } else {
+          this.fieldDynamicStringList.add("");
         }
       }
     }
@@ -238,6 +240,8 @@ public class StringPacket implements BinaryCodec {
         int fieldDynamicString1ListLen = byteBuf.readUnsignedShortLE();
         if (fieldDynamicString1ListLen > 0) {
           this.fieldDynamicString1List.add(readString(byteBuf, fieldDynamicString1ListLen));
+        } else {
+          this.fieldDynamicString1List.add("");
         }
       }
     }
-- 
2.43.0


From 6445d817626d2044509025b0cc27de8f8a20529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 08/10] fix: empty lists and texts kept their old value when
 decoding into a reused object

---
 .../bjse/trade/messages/PlatformInfo.java     |  2 ++
 .../bjse/trade/messages/QuoteResponse.java    |  2 ++
 .../messages/QuoteStatusReportExtend070.java  |  2 ++
 .../trade/messages/ReportSynchronization.java |  2 ++
 .../risk/bin/messages/CancelReject.java       |  8 +++++++
 .../risk/bin/messages/ExecutionReport.java    |  6 +++++
 .../finproto/risk/bin/messages/NewOrder.java  |  8 +++++++
 .../risk/bin/messages/OrderCancel.java        | 10 +++++++++
 .../risk/bin/messages/OrderConfirm.java       |  8 +++++++
 .../risk/bin/messages/RiskResult.java         |  4 ++++
 .../finproto/sample/messages/BasicPacket.java | 22 +++++++++++++++++++
 .../sample/messages/NestedPacket.java         |  4 ++++
 .../sample/messages/StringPacket.java         | 16 ++++++++++++++
 .../finproto/sample/messages/SubPacket.java   |  2 ++
 .../sse/bin/messages/ExecRptInfo.java         |  4 ++++
 .../sse/bin/messages/ExecRptSync.java         |  2 ++
 .../sse/bin/messages/ExecRptSyncRsp.java      |  2 ++
 .../szse/bin/messages/Extend206302.java       |  2 ++
 .../szse/bin/messages/PlatformInfo.java       |  2 ++
 .../bin/messages/ReportSynchronization.java   |  2 ++
 20 files changed, 110 insertions(+)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
index 726d8a3..d8e524a 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
@@ -51,6 +51,8 @@ public class PlatformInfo implements BinaryCodec {
         noPartitions_.decode(byteBuf);
         this.noPartitions.add(noPartitions_);
       }
+    } else {
+      this.noPartitions = null;
     }
   }
 
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
index 159f4a8..16ee818 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
@@ -253,6 +253,8 @@ public class QuoteResponse implements BinaryCodec {
         quote2_.decode(byteBuf);
         this.quote2.add(quote2_);
       }
+    } else {
+      this.quote2 = null;
     }
     this.applExtend = ApplExtendMessageFactory.getInstance().create(this.applId);
     this.applExtend.decode(byteBuf);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
index e4f514a..857b211 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
@@ -161,6 +161,8 @@ public class QuoteStatusReportExtend070 implements BinaryCodec {
         quote1_.decode(byteBuf);
         this.quote1.add(quote1_);
       }
+    } else {
+      this.quote1 = null;
     }
   }
 
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
index d00cf42..d9be153 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
@@ -40,6 +40,8 @@ public class ReportSynchronization implements BinaryCodec {
         reportPartitionSync_.decode(byteBuf);
         this.reportPartitionSync.add(reportPartitionSync_);
       }
+    } else {
+      this.reportPartitionSync = null;
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
index 5d5aafe..0208954 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
@@ -96,18 +96,26 @@ public class CancelReject implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen != 0) {
       this.uniqueOrderId = readString(byteBuf, uniqueOrderIdLen);
+    } else {
+      this.uniqueOrderId = null;
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     if (uniqueOrigOrderIdLen != 0) {
       this.uniqueOrigOrderId = readString(byteBuf, uniqueOrigOrderIdLen);
+    } else {
+      this.uniqueOrigOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen != 0) {
       this.clOrdId = readString(byteBuf, clOrdIdLen);
+    } else {
+      this.clOrdId = null;
     }
     int origClOrdIdLen = byteBuf.readInt();
     if (origClOrdIdLen != 0) {
       this.origClOrdId = readString(byteBuf, origClOrdIdLen);
+    } else {
+      this.origClOrdId = null;
     }
     this.cxlRejReason = byteBuf.readInt();
   }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
index b574500..8a33cb7 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
@@ -99,14 +99,20 @@ public class ExecutionReport implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen != 0) {
       this.uniqueOrderId = readString(byteBuf, uniqueOrderIdLen);
+    } else {
+      this.uniqueOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen != 0) {
       this.clOrdId = readString(byteBuf, clOrdIdLen);
+    } else {
+      this.clOrdId = null;
     }
     int ordCnfmIdLen = byteBuf.readInt();
     if (ordCnfmIdLen != 0) {
       this.ordCnfmId = readString(byteBuf, ordCnfmIdLen);
+    } else {
+      this.ordCnfmId = null;
     }
     this.lastPx = byteBuf.readLong();
     this.lastQty = byteBuf.readLong();
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
index 029f5a3..2572ecc 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
@@ -125,14 +125,20 @@ public class NewOrder implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen != 0) {
       this.uniqueOrderId = readString(byteBuf, uniqueOrderIdLen);
+    } else {
+      this.uniqueOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen != 0) {
       this.clOrdId = readString(byteBuf, clOrdIdLen);
+    } else {
+      this.clOrdId = null;
     }
     int securityIdLen = byteBuf.readInt();
     if (securityIdLen != 0) {
       this.securityId = readString(byteBuf, securityIdLen);
+    } else {
+      this.securityId = null;
     }
     this.side = readFixedString(byteBuf, 1);
     this.price = byteBuf.readLong();
@@ -141,6 +147,8 @@ public class NewOrder implements BinaryCodec {
     int accountLen = byteBuf.readInt();
     if (accountLen != 0) {
       this.account = readString(byteBuf, accountLen);
+    } else {
+      this.account = null;
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
index d1e8e6b..8081113 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
@@ -102,22 +102,32 @@ public class OrderCancel implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen != 0) {
       this.uniqueOrderId = readString(byteBuf, uniqueOrderIdLen);
+    } else {
+      this.uniqueOrderId = null;
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     if (uniqueOrigOrderIdLen != 0) {
       this.uniqueOrigOrderId = readString(byteBuf, uniqueOrigOrderIdLen);
+    } else {
+      this.uniqueOrigOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen != 0) {
       this.clOrdId = readString(byteBuf, clOrdIdLen);
+    } else {
+      this.clOrdId = null;
     }
     int origClOrdIdLen = byteBuf.readInt();
     if (origClOrdIdLen != 0) {
       this.origClOrdId = readString(byteBuf, origClOrdIdLen);
+    } else {
+      this.origClOrdId = null;
     }
     int securityIdLen = byteBuf.readInt();
     if (securityIdLen != 0) {
       this.securityId = readString(byteBuf, securityIdLen);
+    } else {
+      this.securityId = null;
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
index fea372b..2dc351f 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
@@ -105,20 +105,28 @@ public class OrderConfirm implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen != 0) {
       this.uniqueOrderId = readString(byteBuf, uniqueOrderIdLen);
+    } else {
+      this.uniqueOrderId = null;
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     if (uniqueOrigOrderIdLen != 0) {
       this.uniqueOrigOrderId = readString(byteBuf, uniqueOrigOrderIdLen);
+    } else {
+      this.uniqueOrigOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen != 0) {
       this.clOrdId = readString(byteBuf, clOrdIdLen);
+    } else {
+      this.clOrdId = null;
     }
     this.execType = readFixedString(byteBuf, 1);
     this.ordRejReason = byteBuf.readInt();
     int ordCnfmIdLen = byteBuf.readInt();
     if (ordCnfmIdLen != 0) {
       this.ordCnfmId = readString(byteBuf, ordCnfmIdLen);
+    } else {
+      this.ordCnfmId = null;
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
index 43db061..a2f9da9 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
@@ -61,11 +61,15 @@ public class RiskResult implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen != 0) {
       this.uniqueOrderId = readString(byteBuf, uniqueOrderIdLen);
+    } else {
+      this.uniqueOrderId = null;
     }
     this.riskStatus = byteBuf.readByte();
     int riskReasonLen = byteBuf.readInt();
     if (riskReasonLen != 0) {
       this.riskReason = readString(byteBuf, riskReasonLen);
+    } else {
+      this.riskReason = null;
     }
   }
 
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
index d817cb5..e400dc5 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
@@ -329,6 +329,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldI8ListSize; i++) {
         this.fieldI8List.add(byteBuf.readByte());
       }
+    } else {
+      this.fieldI8List = null;
     }
     int fieldI16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI16ListSize > 0) {
@@ -336,6 +338,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldI16ListSize; i++) {
         this.fieldI16List.add(byteBuf.readShortLE());
       }
+    } else {
+      this.fieldI16List = null;
     }
     int fieldI32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI32ListSize > 0) {
@@ -343,6 +347,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldI32ListSize; i++) {
         this.fieldI32List.add(byteBuf.readIntLE());
       }
+    } else {
+      this.fieldI32List = null;
     }
     int fieldI64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI64ListSize > 0) {
@@ -350,6 +356,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldI64ListSize; i++) {
         this.fieldI64List.add(byteBuf.readLongLE());
       }
+    } else {
+      this.fieldI64List = null;
     }
     int fieldCharListSize = byteBuf.readUnsignedShortLE();
     if (fieldCharListSize > 0) {
@@ -357,6 +365,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldCharListSize; i++) {
         this.fieldCharList.add(readFixedString(byteBuf, 1, '0', true));
       }
+    } else {
+      this.fieldCharList = null;
     }
     int fieldU8ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU8ListSize > 0) {
@@ -364,6 +374,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldU8ListSize; i++) {
         this.fieldU8List.add(byteBuf.readByte());
       }
+    } else {
+      this.fieldU8List = null;
     }
     int fieldU16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU16ListSize > 0) {
@@ -371,6 +383,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldU16ListSize; i++) {
         this.fieldU16List.add(byteBuf.readShortLE());
       }
+    } else {
+      this.fieldU16List = null;
     }
     int fieldU32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU32ListSize > 0) {
@@ -378,6 +392,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldU32ListSize; i++) {
         this.fieldU32List.add(byteBuf.readIntLE());
       }
+    } else {
+      this.fieldU32List = null;
     }
     int fieldU64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU64ListSize > 0) {
@@ -385,6 +401,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldU64ListSize; i++) {
         this.fieldU64List.add(byteBuf.readLongLE());
       }
+    } else {
+      this.fieldU64List = null;
     }
     int fieldF32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldF32ListSize > 0) {
@@ -392,6 +410,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldF32ListSize; i++) {
         this.fieldF32List.add(byteBuf.readFloatLE());
       }
+    } else {
+      this.fieldF32List = null;
     }
     int fieldF64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldF64ListSize > 0) {
@@ -399,6 +419,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldF64ListSize; i++) {
         this.fieldF64List.add(byteBuf.readDoubleLE());
       }
+    } else {
+      this.fieldF64List = null;
     }
   }
 
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
index 7233baa..48a9762 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
@@ -64,6 +64,8 @@ public class NestedPacket implements BinaryCodec {
         subPacketList_.decode(byteBuf);
         this.subPacketList.add(subPacketList_);
       }
+    } else {
+      this.subPacketList = null;
     }
     if (null == this.inerPacket) {
       this.inerPacket = new InerPacket();
@@ -145,6 +147,8 @@ public class NestedPacket implements BinaryCodec {
         for (int i = 0; i < fieldI16ListSize; i++) {
           this.fieldI16List.add(byteBuf.readShortLE());
         }
+      } else {
+        this.fieldI16List = null;
       }
     }
 
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index d80bd58..9b54ece 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -212,10 +212,14 @@ public class StringPacket implements BinaryCodec {
     int fieldDynamicStringLen = byteBuf.readUnsignedShortLE();
     if (fieldDynamicStringLen > 0) {
       this.fieldDynamicString = readString(byteBuf, fieldDynamicStringLen);
+    } else {
+      this.fieldDynamicString = null;
     }
     int fieldDynamicString1Len = byteBuf.readUnsignedShortLE();
     if (fieldDynamicString1Len > 0) {
       this.fieldDynamicString1 = readString(byteBuf, fieldDynamicString1Len);
+    } else {
+      this.fieldDynamicString1 = null;
     }
     this.fieldFixedString1 = readFixedString(byteBuf, 1, '0', true);
     this.fieldFixedString10 = readFixedString(byteBuf, 10, '0', true);
@@ -232,6 +236,8 @@ public class StringPacket implements BinaryCodec {
           this.fieldDynamicStringList.add("");
         }
       }
+    } else {
+      this.fieldDynamicStringList = null;
     }
     int fieldDynamicString1ListSize = byteBuf.readUnsignedShortLE();
     if (fieldDynamicString1ListSize > 0) {
@@ -244,6 +250,8 @@ public class StringPacket implements BinaryCodec {
           this.fieldDynamicString1List.add("");
         }
       }
+    } else {
+      this.fieldDynamicString1List = null;
     }
     int fieldFixedString1ListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString1ListSize > 0) {
@@ -251,6 +259,8 @@ public class StringPacket implements BinaryCodec {
       for (int i = 0; i < fieldFixedString1ListSize; i++) {
         this.fieldFixedString1List.add(readFixedString(byteBuf, 1, '0', true));
       }
+    } else {
+      this.fieldFixedString1List = null;
     }
     int fieldFixedString10ListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10ListSize > 0) {
@@ -258,6 +268,8 @@ public class StringPacket implements BinaryCodec {
       for (int i = 0; i < fieldFixedString10ListSize; i++) {
         this.fieldFixedString10List.add(readFixedString(byteBuf, 10, '0', true));
       }
+    } else {
+      this.fieldFixedString10List = null;
     }
     int fieldFixedString10ListPadSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10ListPadSize > 0) {
@@ -265,6 +277,8 @@ public class StringPacket implements BinaryCodec {
       for (int i = 0; i < fieldFixedString10ListPadSize; i++) {
         this.fieldFixedString10ListPad.add(readFixedString(byteBuf, 10, '0', false));
       }
+    } else {
+      this.fieldFixedString10ListPad = null;
     }
     int fieldFixedString10PadWithNullTerminatorListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10PadWithNullTerminatorListSize > 0) {
@@ -273,6 +287,8 @@ public class StringPacket implements BinaryCodec {
         this.fieldFixedString10PadWithNullTerminatorList.add(
             readFixedString(byteBuf, 10, '\0', false));
       }
+    } else {
+      this.fieldFixedString10PadWithNullTerminatorList = null;
     }
   }
 
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
index c826102..e674e84 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
@@ -49,6 +49,8 @@ public class SubPacket implements BinaryCodec {
       for (int i = 0; i < fieldI16ListSize; i++) {
         this.fieldI16List.add(byteBuf.readShortLE());
       }
+    } else {
+      this.fieldI16List = null;
     }
   }
 
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
index 74d0b2c..55e9f86 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
@@ -66,6 +66,8 @@ public class ExecRptInfo implements BinaryCodec {
       for (int i = 0; i < pbuSize; i++) {
         this.pbu.add(readFixedString(byteBuf, 8));
       }
+    } else {
+      this.pbu = null;
     }
     int setIdSize = byteBuf.readUnsignedShort();
     if (setIdSize > 0) {
@@ -73,6 +75,8 @@ public class ExecRptInfo implements BinaryCodec {
       for (int i = 0; i < setIdSize; i++) {
         this.setId.add(byteBuf.readInt());
       }
+    } else {
+      this.setId = null;
     }
   }
 
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
index 98ac64b..9bc03b0 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
@@ -40,6 +40,8 @@ public class ExecRptSync implements BinaryCodec {
         subExecRptSync_.decode(byteBuf);
         this.subExecRptSync.add(subExecRptSync_);
       }
+    } else {
+      this.subExecRptSync = null;
     }
   }
 
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
index 987b9b5..90fbf4e 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
@@ -40,6 +40,8 @@ public class ExecRptSyncRsp implements BinaryCodec {
         subExecRptSyncRsp_.decode(byteBuf);
         this.subExecRptSyncRsp.add(subExecRptSyncRsp_);
       }
+    } else {
+      this.subExecRptSyncRsp = null;
     }
   }
 
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
index 6b82a12..13bf278 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
@@ -111,6 +111,8 @@ public class Extend206302 implements BinaryCodec {
     int imcrejectTextLen = byteBuf.readInt();
     if (imcrejectTextLen != 0) {
       this.imcrejectText = readString(byteBuf, imcrejectTextLen);
+    } else {
+      this.imcrejectText = null;
     }
   }
 
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
index 9c32e1f..f7324fa 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
@@ -55,6 +55,8 @@ public class PlatformInfo implements BinaryCodec {
         platformPartition_.decode(byteBuf);
         this.platformPartition.add(platformPartition_);
       }
+    } else {
+      this.platformPartition = null;
     }
   }
 
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
index 4c03ceb..c37acc8 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
@@ -44,6 +44,8 @@ public class ReportSynchronization implements BinaryCodec {
         partitionReport_.decode(byteBuf);
         this.partitionReport.add(partitionReport_);
       }
+    } else {
+      this.partitionReport = null;
     }
   }
 
-- 
2.43.0


From 64498df139ce6698f4e6e1a084962e59b62ba028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:34 +0000
Subject: [PATCH 09/10] fix: SSE class lookup still answered the message type
 after its removal

---
 .../src/main/java/com/finproto/sse/bin/messages/SseBinary.java   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
index 0cc1acb..c4e8dcc 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
@@ -216,6 +216,7 @@ public class SseBinary implements BinaryCodec {
     }
 
     public boolean remove(Integer msgType) {
+      reverseMap.values().removeIf(type -> Objects.equals(type, msgType));
       return null != bodyMap.remove(msgType);
     }
 
-- 
2.43.0


From ae78e6799ba43302614e0b709deba01e8d4df658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 10/10] fix: registries lost or missed entries when used by
 several threads

---
 .../finproto/bjse/trade/messages/AllegeQuote.java    |  4 +++-
 .../com/finproto/bjse/trade/messages/BjseBinary.java |  4 +++-
 .../bjse/trade/messages/ExecutionConfirm.java        |  4 +++-
 .../bjse/trade/messages/ExecutionReport.java         |  4 +++-
 .../com/finproto/bjse/trade/messages/NewOrder.java   |  4 +++-
 .../java/com/finproto/bjse/trade/messages/Quote.java |  4 +++-
 .../finproto/bjse/trade/messages/QuoteResponse.java  |  4 +++-
 .../bjse/trade/messages/QuoteStatusReport.java       |  4 +++-
 .../bjse/trade/messages/TradeCaptureConfirm.java     |  4 +++-
 .../bjse/trade/messages/TradeCaptureReport.java      |  4 +++-
 .../bjse/trade/messages/TradeCaptureReportAck.java   |  4 +++-
 .../com/finproto/codec/ChecksumServiceFactory.java   | 10 ++++------
 .../com/finproto/risk/bin/messages/RcBinary.java     |  4 +++-
 .../com/finproto/sample/messages/RootPacket.java     |  4 +++-
 .../com/finproto/sse/bin/messages/SseBinary.java     | 12 ++++++++----
 .../finproto/szse/bin/messages/ExecutionConfirm.java |  4 +++-
 .../finproto/szse/bin/messages/ExecutionReport.java  |  4 +++-
 .../com/finproto/szse/bin/messages/NewOrder.java     |  4 +++-
 .../com/finproto/szse/bin/messages/SzseBinary.java   |  4 +++-
 19 files changed, 63 insertions(+), 27 deletions(-)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/AllegeQuote.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/AllegeQuote.java
index e09ef92..36bb362 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/AllegeQuote.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/AllegeQuote.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -465,7 +466,8 @@ public class AllegeQuote implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("070", AllegeQuoteExtend070::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/BjseBinary.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/BjseBinary.java
index 7f66847..fb4ee4a 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/BjseBinary.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/BjseBinary.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -101,7 +102,8 @@ public class BjseBinary implements BinaryCodec {
 
   public static enum BodyMessageFactory {
     INSTANCE;
-    private final Map<Integer, Supplier<BinaryCodec>> bodyMap = new HashMap<>();
+    private final Map<Integer, Supplier<BinaryCodec>> bodyMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register((int) 1, Logon::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionConfirm.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionConfirm.java
index f94c4dd..04da5f3 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionConfirm.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionConfirm.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -465,7 +466,8 @@ public class ExecutionConfirm implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("010", ConfirmExtend010::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionReport.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionReport.java
index 8470ddc..6396e9b 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionReport.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionReport.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -405,7 +406,8 @@ public class ExecutionReport implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("010", ReportExtend010::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/NewOrder.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/NewOrder.java
index d796d84..b41bbbb 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/NewOrder.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/NewOrder.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -300,7 +301,8 @@ public class NewOrder implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("010", ExtendNewOrder010::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Quote.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Quote.java
index a234527..a077e51 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Quote.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Quote.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -300,7 +301,8 @@ public class Quote implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("070", QuoteExtend070::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
index 16ee818..5669e00 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
@@ -4,6 +4,7 @@ package com.finproto.bjse.trade.messages;
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
 import java.util.ArrayList;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.List;
 import java.util.Map;
@@ -440,7 +441,8 @@ public class QuoteResponse implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("070", QuoteResponseExtend070::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReport.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReport.java
index 2b2ece5..7c89157 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReport.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReport.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -360,7 +361,8 @@ public class QuoteStatusReport implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("070", QuoteStatusReportExtend070::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirm.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirm.java
index 17712c1..994de69 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirm.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirm.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -495,7 +496,8 @@ public class TradeCaptureConfirm implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("031", TradeCaptureConfirmExtend031::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReport.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReport.java
index 7e616d7..4476ab7 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReport.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReport.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -435,7 +436,8 @@ public class TradeCaptureReport implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("031", TradeCaptureReportExtend031::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAck.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAck.java
index b2ba099..30fd7c8 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAck.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAck.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -555,7 +556,8 @@ public class TradeCaptureReportAck implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("031", TradeCaptureReportAckExtend031::new);
diff --git a/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java b/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
index b4947d7..7c9eae0 100644
--- a/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
+++ b/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
@@ -1,5 +1,6 @@
 package com.finproto.codec;
 
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 
@@ -10,7 +11,8 @@ public enum ChecksumServiceFactory {
     return INSTANCE;
   }
 
-  private final Map<String, ChecksumService<?, ?>> CACHE = new HashMap<>();
+  private final Map<String, ChecksumService<?, ?>> CACHE =
+      Collections.synchronizedMap(new HashMap<>());
 
   private ChecksumServiceFactory() {
     registry(new Crc16ChecksumService());
@@ -26,11 +28,7 @@ public enum ChecksumServiceFactory {
   }
 
   public boolean registry(ChecksumService<?, ?> checksumService) {
-    if (CACHE.containsKey(checksumService.algorithm())) {
-      return false;
-    }
-    CACHE.put(checksumService.algorithm(), checksumService);
-    return true;
+    return null == CACHE.putIfAbsent(checksumService.algorithm(), checksumService);
   }
 
   @SuppressWarnings("unchecked")
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RcBinary.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RcBinary.java
index ef8a39d..1d50a0a 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RcBinary.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RcBinary.java
@@ -3,6 +3,7 @@ package com.finproto.risk.bin.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -107,7 +108,8 @@ public class RcBinary implements BinaryCodec {
 
   public static enum BodyMessageFactory {
     INSTANCE;
-    private final Map<Integer, Supplier<BinaryCodec>> bodyMap = new HashMap<>();
+    private final Map<Integer, Supplier<BinaryCodec>> bodyMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register((int) 100101, NewOrder::new);
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
index 355050d..98956e4 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
@@ -5,6 +5,7 @@ import com.finproto.codec.BinaryCodec;
 import com.finproto.codec.ChecksumService;
 import com.finproto.codec.ChecksumServiceFactory;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -118,7 +119,8 @@ public class RootPacket implements BinaryCodec {
 
   public static enum PayloadMessageFactory {
     INSTANCE;
-    private final Map<Short, Supplier<BinaryCodec>> payloadMap = new HashMap<>();
+    private final Map<Short, Supplier<BinaryCodec>> payloadMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register((short) 1, BasicPacket::new);
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
index c4e8dcc..6e0c69c 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
@@ -5,6 +5,7 @@ import com.finproto.codec.BinaryCodec;
 import com.finproto.codec.ChecksumService;
 import com.finproto.codec.ChecksumServiceFactory;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -132,8 +133,10 @@ public class SseBinary implements BinaryCodec {
 
   public static enum BodyMessageFactory {
     INSTANCE;
-    private final Map<Integer, Supplier<BinaryCodec>> bodyMap = new HashMap<>();
-    private final Map<Class<?>, Integer> reverseMap = new HashMap<>();
+    private final Map<Integer, Supplier<BinaryCodec>> bodyMap =
+        Collections.synchronizedMap(new HashMap<>());
+    private final Map<Class<?>, Integer> reverseMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     public enum MessageType {
       HEARTBEAT(33),
@@ -210,12 +213,13 @@ public class SseBinary implements BinaryCodec {
       return supplier.get();
     }
 
-    public void register(Class<?> clazz, Integer msgType, Supplier<BinaryCodec> supplier) {
+    public synchronized void register(
+        Class<?> clazz, Integer msgType, Supplier<BinaryCodec> supplier) {
       bodyMap.put(msgType, supplier);
       reverseMap.put(clazz, msgType);
     }
 
-    public boolean remove(Integer msgType) {
+    public synchronized boolean remove(Integer msgType) {
       reverseMap.values().removeIf(type -> Objects.equals(type, msgType));
       return null != bodyMap.remove(msgType);
     }
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionConfirm.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionConfirm.java
index dceaeea..0a4bca1 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionConfirm.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionConfirm.java
@@ -3,6 +3,7 @@ package com.finproto.szse.bin.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -480,7 +481,8 @@ public class ExecutionConfirm implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("010", Extend200102::new);
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionReport.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionReport.java
index 668ed5e..40dee6c 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionReport.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionReport.java
@@ -3,6 +3,7 @@ package com.finproto.szse.bin.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -420,7 +421,8 @@ public class ExecutionReport implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("010", Extend200115::new);
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/NewOrder.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/NewOrder.java
index 0dc1508..4aacf80 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/NewOrder.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/NewOrder.java
@@ -3,6 +3,7 @@ package com.finproto.szse.bin.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -300,7 +301,8 @@ public class NewOrder implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("010", Extend100101::new);
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
index e1a5d52..f7f2749 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
@@ -5,6 +5,7 @@ import com.finproto.codec.BinaryCodec;
 import com.finproto.codec.ChecksumService;
 import com.finproto.codec.ChecksumServiceFactory;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -118,7 +119,8 @@ public class SzseBinary implements BinaryCodec {
 
   public static enum BodyMessageFactory {
     INSTANCE;
-    private final Map<Integer, Supplier<BinaryCodec>> bodyMap = new HashMap<>();
+    private final Map<Integer, Supplier<BinaryCodec>> bodyMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register((int) 1, Logon::new);
-- 
2.43.0

