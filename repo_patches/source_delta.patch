From 1eb0e1db8846c4eef96c77be5406a0f965c448ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:19 +0000
Subject: [PATCH 01/16] fix: keep the space flag when %d prints zero with
 precision 0

---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index f4c995a..4f9bc67 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -73,8 +73,7 @@ public final class SeqFormatter {
   static Seq d(FormatContext context, IntForm value) {
     int signum = value.signum();
     if (signum == 0 && context.getPrecision() == 0) {
-      Seq v0 = context.hasFlag(Flag.PLUS) ? Seq.ch('+') : Seq.empty();
-      return spaceJustify(context, v0);
+      return spaceJustify(context, sign(context, Seq.empty(), false));
     }
     Seq v0 = Seq.wrap(value.toDecimalString());
     int precision = 1;
-- 
2.43.0


From 1151334af3fc16fb0abb85f815418643b23d92eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:22 +0000
Subject: [PATCH 02/16] fix: zero-pad and width-fill a zero value under the #
 flag of %o and %x

---
 .../java/io/fastprintf/appender/SeqFormatter.java   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index 4f9bc67..bf2254c 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -110,21 +110,26 @@ public final class SeqFormatter {
   private static Seq formatUnsignedInteger(
       FormatContext context, IntForm value, Function<IntForm, String> toString, String prefix) {
     int signum = value.signum();
+    boolean alternate = context.hasFlag(Flag.ALTERNATE);
+    boolean octal = "0".equals(prefix);
     if (signum == 0 && context.getPrecision() == 0) {
-      return spaceJustify(context, Seq.empty());
+      // The alternate octal form always starts with a zero digit.
+      return spaceJustify(context, alternate && octal ? Seq.ch('0') : Seq.empty());
     }
+    // Zero never takes a prefix.
+    boolean prefixed = alternate && signum != 0;
     Seq v0 = Seq.wrap(toString.apply(value));
     int precision = 1;
     if (context.isPrecisionSet()) {
       precision = context.getPrecision();
-      if (context.hasFlag(Flag.ALTERNATE) && "0".equals(prefix)) {
+      if (prefixed && octal) {
         --precision;
       }
     } else if (context.hasFlag(Flag.ZERO_PAD)
         && context.isWidthSet()
         && !context.hasFlag(Flag.LEFT_JUSTIFY)) {
       precision = context.getWidth();
-      if (context.hasFlag(Flag.ALTERNATE)) {
+      if (prefixed) {
         precision -= prefix.length();
       }
     }
@@ -132,7 +137,7 @@ public final class SeqFormatter {
       Seq pad = Seq.repeated('0', precision - v0.length());
       v0 = v0.prepend(pad);
     }
-    if (signum != 0 && context.hasFlag(Flag.ALTERNATE)) {
+    if (prefixed) {
       v0 = v0.prepend(Seq.wrap(prefix));
     }
     return spaceJustify(context, v0);
-- 
2.43.0


From d265a96c13f9808fedeb6b5dbe78d2a72d9df5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:31 +0000
Subject: [PATCH 03/16] fix: give sub-sequences of composite sequences their
 real length

---
 src/main/java/io/fastprintf/seq/AtomicSeqIterable.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java b/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
index ce19602..b50c337 100644
--- a/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
+++ b/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
@@ -34,6 +34,7 @@ public interface AtomicSeqIterable extends Seq, Iterable<AtomicSeq> {
     Preconditions.checkPositionIndexes(start, end, length);
     if (start == end) return Seq.empty();
     if (start == 0 && end == length) return this;
+    int resultLength = end - start;
     List<AtomicSeq> buffer = new ArrayList<>();
     for (AtomicSeq seq : this) {
       int seqLength = seq.length();
@@ -53,7 +54,7 @@ public interface AtomicSeqIterable extends Seq, Iterable<AtomicSeq> {
     if (buffer.size() == 1) {
       return buffer.get(0);
     }
-    return new SeqArray(buffer.toArray(new AtomicSeq[0]), end - start);
+    return new SeqArray(buffer.toArray(new AtomicSeq[0]), resultLength);
   }
 
   /**
-- 
2.43.0


From 405e757758e28e2c27bb6a33e90780deda5643bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:39 +0000
Subject: [PATCH 04/16] fix: reject a '*' width of Integer.MIN_VALUE instead of
 ignoring it

---
 src/main/java/io/fastprintf/appender/DefaultAppender.java | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/appender/DefaultAppender.java b/src/main/java/io/fastprintf/appender/DefaultAppender.java
index e947ff1..6fe5100 100644
--- a/src/main/java/io/fastprintf/appender/DefaultAppender.java
+++ b/src/main/java/io/fastprintf/appender/DefaultAppender.java
@@ -103,7 +103,9 @@ public final class DefaultAppender implements Appender {
       if (w >= 0) {
         context = context.setWidth(w);
       } else {
-        context = context.addFlag(Flag.LEFT_JUSTIFY).setWidth(-w);
+        // -Integer.MIN_VALUE overflows to the PRECEDING marker; saturate so it is rejected as too wide.
+        int width = w == Integer.MIN_VALUE ? Integer.MAX_VALUE : -w;
+        context = context.addFlag(Flag.LEFT_JUSTIFY).setWidth(width);
       }
     }
     if (context.isPrecedingPrecision()) {
-- 
2.43.0


From 1a69de17a91ec7cbb3da50461aaf0a4d46d92087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:47 +0000
Subject: [PATCH 05/16] fix: print two exponent digits for a ten-digit
 BigDecimal of scale 0

---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index cea869e..16c27f5 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -38,7 +38,7 @@ public final class BigDecimalWrapper implements FloatForm {
     if (scale == 0) {
       if (length > 1) {
         Seq mant = insertDotAfterFirstChar(unscaledString);
-        Seq exp = length < 10 ? Seq.wrap("+0" + (length - 1)) : Seq.wrap("+" + (length - 1));
+        Seq exp = length <= 10 ? Seq.wrap("+0" + (length - 1)) : Seq.wrap("+" + (length - 1));
         return new FloatLayout(mant, exp);
       } else {
         return new FloatLayout(Seq.wrap(unscaledString), Seq.wrap("+00"));
-- 
2.43.0


From fe6c58c2853d37d2b08e83f290be25b5d005a50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:55 +0000
Subject: [PATCH 06/16] fix: compile formats of any length without recursion

---
 src/main/java/io/fastprintf/Compiler.java | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/main/java/io/fastprintf/Compiler.java b/src/main/java/io/fastprintf/Compiler.java
index a3514a6..2683972 100644
--- a/src/main/java/io/fastprintf/Compiler.java
+++ b/src/main/java/io/fastprintf/Compiler.java
@@ -21,7 +21,9 @@ final class Compiler {
   }
 
   void compile() {
-    parseNext();
+    while (!endOfSource()) {
+      parseNext();
+    }
   }
 
   private boolean endOfSource() {
@@ -29,7 +31,6 @@ final class Compiler {
   }
 
   private void parseNext() {
-    if (endOfSource()) return;
     char c = source.charAt(lookahead);
     if (c == '%') {
       lookahead++;
@@ -45,7 +46,6 @@ final class Compiler {
     if (c == '%') {
       lookahead++;
       appenders.add(new FixedStringAppender("%"));
-      parseNext();
       return;
     }
     // %[flags][width][.precision]specifier[{date-time-formatter}]
@@ -59,7 +59,6 @@ final class Compiler {
     }
     FormatContext context = FormatContext.create(flags, width, precision, dateTimeFormatter);
     appenders.add(new DefaultAppender(specifier, context));
-    parseNext();
   }
 
   private EnumSet<Flag> flags() {
@@ -209,8 +208,7 @@ final class Compiler {
       return;
     }
     appenders.add(new FixedStringAppender(source.substring(lookahead, nextPercent)));
-    lookahead = nextPercent + 1;
-    forPattern();
+    lookahead = nextPercent;
   }
 
   List<Appender> getAppenders() {
-- 
2.43.0


From f606a3063153398aecacaf3acb55fe8866393ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:03 +0000
Subject: [PATCH 07/16] fix: ignore the scale of a zero BigDecimal in %f, %e
 and %g

---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index 16c27f5..8baf712 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -114,7 +114,7 @@ public final class BigDecimalWrapper implements FloatForm {
   public FloatLayout generalLayout(int precision) {
     BigDecimal tenToTheNegFour = BigDecimal.valueOf(1, 4);
     BigDecimal tenToThePrec = BigDecimal.valueOf(1, -precision);
-    if ((value.equals(BigDecimal.ZERO))
+    if ((signum == 0)
         || ((value.compareTo(tenToTheNegFour) >= 0) && (value.compareTo(tenToThePrec) < 0))) {
 
       int e = -value.scale() + (value.unscaledValue().toString().length() - 1);
@@ -138,6 +138,9 @@ public final class BigDecimalWrapper implements FloatForm {
 
   @Override
   public FloatLayout scientificLayout(int precision) {
+    if (signum == 0) {
+      return new FloatLayout(Seq.ch('0'), Seq.wrap("+00"));
+    }
     int scale = value.scale();
     int origPrec = value.precision();
     int compPrec;
@@ -154,6 +157,9 @@ public final class BigDecimalWrapper implements FloatForm {
 
   @Override
   public FloatLayout decimalLayout(int precision) {
+    if (signum == 0) {
+      return new FloatLayout(Seq.ch('0'), null);
+    }
     BigDecimal value = this.value;
     int scale = value.scale();
     if (scale > precision) {
-- 
2.43.0


From bbe1b92ba9aad0aa06733a85ac6aa906852bc688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:11 +0000
Subject: [PATCH 08/16] fix: choose the %g notation of a BigDecimal by its
 rounded value

---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index 8baf712..57bf6a0 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -112,12 +112,14 @@ public final class BigDecimalWrapper implements FloatForm {
 
   @Override
   public FloatLayout generalLayout(int precision) {
+    // The notation depends on the value after rounding to the requested significant digits.
+    BigDecimal rounded = value.round(new MathContext(precision));
     BigDecimal tenToTheNegFour = BigDecimal.valueOf(1, 4);
     BigDecimal tenToThePrec = BigDecimal.valueOf(1, -precision);
     if ((signum == 0)
-        || ((value.compareTo(tenToTheNegFour) >= 0) && (value.compareTo(tenToThePrec) < 0))) {
+        || ((rounded.compareTo(tenToTheNegFour) >= 0) && (rounded.compareTo(tenToThePrec) < 0))) {
 
-      int e = -value.scale() + (value.unscaledValue().toString().length() - 1);
+      int e = -rounded.scale() + (rounded.precision() - 1);
 
       // xxx.yyy
       //   g precision (# sig digits) = #x + #y
-- 
2.43.0


From 5732a07b366f9a97dc65e179e9379407edc4861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:27 +0000
Subject: [PATCH 09/16] fix: keep nested calls of a cached formatter from
 sharing one builder

---
 .../java/io/fastprintf/FastPrintfImpl.java    | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/main/java/io/fastprintf/FastPrintfImpl.java b/src/main/java/io/fastprintf/FastPrintfImpl.java
index 0533ce1..0cc3948 100644
--- a/src/main/java/io/fastprintf/FastPrintfImpl.java
+++ b/src/main/java/io/fastprintf/FastPrintfImpl.java
@@ -84,10 +84,23 @@ final class FastPrintfImpl implements FastPrintf {
     // OPTIMIZATION: Create the consumer ONCE.
     // This reduces allocation from O(N) to O(1) where N is the number of appenders.
     Consumer<Seq> consumer = seq -> seq.appendTo(builder);
-    for (Appender appender : appenders) {
-      appender.append(consumer, iterator);
+    if (threadLocalBuilder == null) {
+      for (Appender appender : appenders) {
+        appender.append(consumer, iterator);
+      }
+      return builder.toString();
+    }
+    // Detach the cached builder while it is in use, so that a nested call made by an argument (e.g.
+    // from its toString) gets a builder of its own.
+    threadLocalBuilder.remove();
+    try {
+      for (Appender appender : appenders) {
+        appender.append(consumer, iterator);
+      }
+      return builder.toString();
+    } finally {
+      threadLocalBuilder.set(builder);
     }
-    return builder.toString();
   }
 
   @Override
-- 
2.43.0


From 8ff247d2c0c6c2689671541050d480ac6fb19fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:58 +0000
Subject: [PATCH 10/16] fix: keep all significant digits in the scientific form
 of %#g

---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index bf2254c..7d86a92 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -269,9 +269,11 @@ public final class SeqFormatter {
   }
 
   /** Formats the mantissa and exponent for %g when it chooses scientific representation. */
-  private static Seq formatGScientific(FormatContext context, FloatLayout layout) {
+  private static Seq formatGScientific(FormatContext context, FloatLayout layout, int precision) {
     Seq mantissa = layout.getMantissa();
-    if (!context.hasFlag(Flag.ALTERNATE)) {
+    if (context.hasFlag(Flag.ALTERNATE)) {
+      mantissa = formatFractionalPart(mantissa, precision - 1, false);
+    } else {
       mantissa = stripTrailingZeros(mantissa);
     }
     return mantissa.append(Seq.ch('e')).append(layout.getExponent());
@@ -298,7 +300,7 @@ public final class SeqFormatter {
       v0 = formatGDecimal(context, layout, precision);
     } else {
       // Use scientific ('e'-style) representation
-      v0 = formatGScientific(context, layout);
+      v0 = formatGScientific(context, layout, precision);
     }
 
     return signAndJustify(context, v0, value.isNegative());
-- 
2.43.0


From 21e30619296cc6d79eec10823145cfb4b03fd467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:15 +0000
Subject: [PATCH 11/16] fix: format instants with a date-time pattern in the
 system zone

---
 .../java/io/fastprintf/appender/SeqFormatter.java     | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index 7d86a92..ba594e1 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -395,13 +395,12 @@ public final class SeqFormatter {
     DateTimeFormatter formatter = context.getDateTimeFormatter();
     TemporalAccessor temporalAccessor = traits.asTemporalAccessor();
 
+    if (temporalAccessor instanceof Instant) {
+      // An Instant has no calendar fields of its own, so a pattern needs a zone as well.
+      temporalAccessor = ((Instant) temporalAccessor).atZone(ZoneId.systemDefault());
+    }
     if (formatter == null) {
-      if (temporalAccessor instanceof Instant) {
-        temporalAccessor = ((Instant) temporalAccessor).atZone(ZoneId.systemDefault());
-        formatter = DateTimeFormatter.ISO_OFFSET_DATE_TIME;
-      } else {
-        formatter = bestDefaultFormatterOrThrow(temporalAccessor);
-      }
+      formatter = bestDefaultFormatterOrThrow(temporalAccessor);
     }
     Seq seq = Seq.wrap(formatter.format(temporalAccessor));
     return spaceJustify(context, seq);
-- 
2.43.0


From f648dee7b923ec0e8336489785513504f96b5782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:23 +0000
Subject: [PATCH 12/16] fix: report date-time formatting failures as
 PrintfException

---
 .../io/fastprintf/appender/SeqFormatter.java     | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index ba594e1..fcc3650 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -9,6 +9,7 @@ import io.fastprintf.number.IntForm;
 import io.fastprintf.seq.Seq;
 import io.fastprintf.traits.FormatTraits;
 import io.fastprintf.traits.RefSlot;
+import java.time.DateTimeException;
 import java.time.Instant;
 import java.time.LocalDate;
 import java.time.LocalDateTime;
@@ -392,8 +393,18 @@ public final class SeqFormatter {
   }
 
   static Seq t(FormatContext context, FormatTraits traits) {
-    DateTimeFormatter formatter = context.getDateTimeFormatter();
     TemporalAccessor temporalAccessor = traits.asTemporalAccessor();
+    String text;
+    try {
+      text = formatDateTime(context.getDateTimeFormatter(), temporalAccessor);
+    } catch (DateTimeException e) {
+      throw new PrintfException("Cannot format date/time value: " + temporalAccessor, e);
+    }
+    return spaceJustify(context, Seq.wrap(text));
+  }
+
+  private static String formatDateTime(
+      DateTimeFormatter formatter, TemporalAccessor temporalAccessor) {
 
     if (temporalAccessor instanceof Instant) {
       // An Instant has no calendar fields of its own, so a pattern needs a zone as well.
@@ -402,7 +413,6 @@ public final class SeqFormatter {
     if (formatter == null) {
       formatter = bestDefaultFormatterOrThrow(temporalAccessor);
     }
-    Seq seq = Seq.wrap(formatter.format(temporalAccessor));
-    return spaceJustify(context, seq);
+    return formatter.format(temporalAccessor);
   }
 }
-- 
2.43.0


From 6d3850b0ff2b38846091f55b595ee64ee6dbfdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:32 +0000
Subject: [PATCH 13/16] fix: report epoch-millisecond overflow as
 PrintfException

---
 src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java b/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java
index f2d4686..4dc1244 100644
--- a/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java
+++ b/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java
@@ -48,7 +48,7 @@ public final class TemporalAccessorTraits implements FormatTraits {
     try {
       // The most robust way to get epoch milliseconds is also via Instant.
       return Instant.from(value).toEpochMilli();
-    } catch (DateTimeException e) {
+    } catch (DateTimeException | ArithmeticException e) {
       throw new PrintfException("Can't get epoch milliseconds from: %s", value, e);
     }
   }
-- 
2.43.0


From 386f53021e968bb1b08ba48be29e4f637b821a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:41 +0000
Subject: [PATCH 14/16] fix: reject a BigInteger timestamp that does not fit in
 64 bits

---
 src/main/java/io/fastprintf/traits/BigIntegerTraits.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/java/io/fastprintf/traits/BigIntegerTraits.java b/src/main/java/io/fastprintf/traits/BigIntegerTraits.java
index fd98487..a6f0ecd 100644
--- a/src/main/java/io/fastprintf/traits/BigIntegerTraits.java
+++ b/src/main/java/io/fastprintf/traits/BigIntegerTraits.java
@@ -1,5 +1,6 @@
 package io.fastprintf.traits;
 
+import io.fastprintf.PrintfException;
 import io.fastprintf.number.FloatForm;
 import io.fastprintf.number.IntForm;
 import io.fastprintf.util.Utils;
@@ -37,6 +38,9 @@ public final class BigIntegerTraits implements FormatTraits {
 
   @Override
   public TemporalAccessor asTemporalAccessor() {
+    if (value.bitLength() > 63) {
+      throw new PrintfException("%s is out of range for a timestamp", value);
+    }
     return Utils.longToInstant(value.longValue());
   }
 
-- 
2.43.0


From 02e796014dc282c6f62be40aca3f7d309d1cfbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:51 +0000
Subject: [PATCH 15/16] fix: accept java.sql.Date and java.sql.Time in %t

---
 src/main/java/io/fastprintf/traits/ObjectTraits.java | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/traits/ObjectTraits.java b/src/main/java/io/fastprintf/traits/ObjectTraits.java
index 7412df5..a436d1b 100644
--- a/src/main/java/io/fastprintf/traits/ObjectTraits.java
+++ b/src/main/java/io/fastprintf/traits/ObjectTraits.java
@@ -5,6 +5,7 @@ import io.fastprintf.number.FloatForm;
 import io.fastprintf.number.IntForm;
 import io.fastprintf.util.Utils;
 import java.lang.reflect.Array;
+import java.time.Instant;
 import java.time.temporal.TemporalAccessor;
 import java.util.Arrays;
 import java.util.Base64;
@@ -93,7 +94,8 @@ public final class ObjectTraits implements FormatTraits {
   @Override
   public TemporalAccessor asTemporalAccessor() {
     if (value instanceof Date) {
-      return ((Date) value).toInstant();
+      // java.sql.Date and java.sql.Time do not support toInstant().
+      return Instant.ofEpochMilli(((Date) value).getTime());
     }
     if (value instanceof Calendar) {
       return ((Calendar) value).toInstant();
-- 
2.43.0


From cf674271067926fb1153e2daaaf7e2482d87fae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:47:12 +0000
Subject: [PATCH 16/16] fix: tolerate a failing toString of the first joined
 element too

Joining an iterable or iterator shows an element whose toString fails as
<class@hash threw exception>, but the first element was appended directly
and its exception escaped. Joining an array already treats all elements
alike.
---
 src/main/java/io/fastprintf/util/Utils.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/util/Utils.java b/src/main/java/io/fastprintf/util/Utils.java
index 0b72b3c..1d62e33 100644
--- a/src/main/java/io/fastprintf/util/Utils.java
+++ b/src/main/java/io/fastprintf/util/Utils.java
@@ -112,7 +112,7 @@ public final class Utils {
 
   private static StringBuilder joinIterator(StringBuilder sb, String separator, Iterator<?> it) {
     if (!it.hasNext()) return sb;
-    sb.append(it.next());
+    sb.append(lenientToString(it.next()));
     while (it.hasNext()) {
       sb.append(separator).append(lenientToString(it.next()));
     }
-- 
2.43.0

