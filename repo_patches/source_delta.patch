From f60c2ae4dff67ed96d46bd13410a803c7c098716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 01/19] fix: python runtime: float16 conversion must not turn a
 number into NaN or a NaN into infinity

Finite single precision values beyond the half precision range with a nonzero
significand were converted to NaN (or, for exponent 2^16, to an invalid pattern
that even flipped the sign by rounding) instead of infinity, and a NaN with the
payload in the low 13 bits only was converted to infinity.
---
 compiler/extensions/python/runtime/src/zserio/float.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/python/runtime/src/zserio/float.py b/compiler/extensions/python/runtime/src/zserio/float.py
index b245b17..a37af71 100644
--- a/compiler/extensions/python/runtime/src/zserio/float.py
+++ b/compiler/extensions/python/runtime/src/zserio/float.py
@@ -86,12 +86,16 @@ def float_to_uint16(float64: float) -> int:
     elif exponent32 == FLOAT32_EXPONENT_INFINITY_NAN:
         # infinity or NaN
         exponent16 = FLOAT16_EXPONENT_INFINITY_NAN
+        if significand32 != 0 and significand16 == 0:
+            # NaN payload is lost by the truncation, keep it NaN (quiet)
+            significand16 = (FLOAT16_SIGNIFICAND_MASK + 1) >> 1
     else:
         # normal number
         signed_exponent16 = exponent32 - FLOAT32_EXPONENT_BIAS + FLOAT16_EXPONENT_BIAS
-        if signed_exponent16 > FLOAT16_EXPONENT_INFINITY_NAN:
-            # exponent overflow, set infinity or NaN
+        if signed_exponent16 >= FLOAT16_EXPONENT_INFINITY_NAN:
+            # exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN
+            significand16 = 0
         elif signed_exponent16 <= 0:
             # exponent underflow
             if signed_exponent16 <= -FLOAT16_SIGNIFICAND_NUM_BITS:
-- 
2.43.0


From 8810a9d3bbc4848b07466af152f3129be1ff1efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 02/19] fix: java runtime: float16 conversion must not turn a
 number into NaN or a NaN into infinity

Finite single precision values beyond the half precision range with a nonzero
significand were converted to NaN (or, for exponent 2^16, to an invalid pattern
that even flipped the sign by rounding) instead of infinity, and a NaN with the
payload in the low 13 bits only was converted to infinity.
---
 .../java/runtime/src/zserio/runtime/FloatUtil.java     | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java b/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
index bc295e6..1ff14ce 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
@@ -110,15 +110,21 @@ public final class FloatUtil
         {
             // infinity or NaN
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+            if (significand32 != 0 && significand16 == 0)
+            {
+                // NaN payload is lost by the truncation, keep it NaN (quiet)
+                significand16 = (short)((FLOAT16_SIGNIFICAND_MASK + 1) >> 1);
+            }
         }
         else
         {
             // normal number
             final short signedExponent16 = (short)(exponent32 - FLOAT32_EXPONENT_BIAS + FLOAT16_EXPONENT_BIAS);
-            if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+            if (signedExponent16 >= FLOAT16_EXPONENT_INFINITY_NAN)
             {
-                // exponent overflow, set infinity or NaN
+                // exponent overflow, set infinity
                 exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+                significand16 = 0;
             }
             else if (signedExponent16 <= 0)
             {
-- 
2.43.0


From 6afbe4c94bac45122d42f4e842ced36e9ec21d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 03/19] fix: cpp runtime: float16 conversion must not turn a
 number into NaN or a NaN into infinity

Finite single precision values beyond the half precision range with a nonzero
significand were converted to NaN (or, for exponent 2^16, to an invalid pattern
that even flipped the sign by rounding) instead of infinity, and a NaN with the
payload in the low 13 bits only was converted to infinity.
---
 .../extensions/cpp/runtime/src/zserio/FloatUtil.cpp    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp b/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
index 270f903..4435e00 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
@@ -108,16 +108,22 @@ uint16_t convertFloatToUInt16(float float32)
     {
         // infinity or NaN
         exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+        if (significand32 != 0 && significand16 == 0)
+        {
+            // NaN payload is lost by the truncation, keep it NaN (quiet)
+            significand16 = static_cast<uint16_t>((FLOAT16_SIGNIFICAND_MASK + 1U) >> 1U);
+        }
     }
     else
     {
         // normal number
         const int16_t signedExponent16 = static_cast<int16_t>(static_cast<int32_t>(exponent32) -
                 static_cast<int32_t>(FLOAT32_EXPONENT_BIAS) + static_cast<int32_t>(FLOAT16_EXPONENT_BIAS));
-        if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+        if (signedExponent16 >= FLOAT16_EXPONENT_INFINITY_NAN)
         {
-            // exponent overflow, set infinity or NaN
+            // exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+            significand16 = 0;
         }
         else if (signedExponent16 <= 0)
         {
-- 
2.43.0


From 453dc904a87c24056535a7025d07c3d461149efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 04/19] fix: Python JsonReader crashed on a bitmask text made
 of digits only

---
 compiler/extensions/python/runtime/src/zserio/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/python/runtime/src/zserio/json.py b/compiler/extensions/python/runtime/src/zserio/json.py
index 78f94f4..f8aba71 100644
--- a/compiler/extensions/python/runtime/src/zserio/json.py
+++ b/compiler/extensions/python/runtime/src/zserio/json.py
@@ -1345,7 +1345,7 @@ class JsonReader:
         @staticmethod
         def _parse_bitmask_numeric_string_value(string_value: str):
             number_len = 1
-            while string_value[number_len] >= "0" and string_value[number_len] <= "9":
+            while number_len < len(string_value) and "0" <= string_value[number_len] <= "9":
                 number_len += 1
 
             return int(string_value[0:number_len])
-- 
2.43.0


From 8ef24546a984b362adb2c8545bbf2918104e8d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 05/19] fix: Python generator: a choice read in an empty case
 compares and hashes like a written one

---
 compiler/extensions/python/freemarker/Choice.py.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/python/freemarker/Choice.py.ftl b/compiler/extensions/python/freemarker/Choice.py.ftl
index 310293e..c95f842 100644
--- a/compiler/extensions/python/freemarker/Choice.py.ftl
+++ b/compiler/extensions/python/freemarker/Choice.py.ftl
@@ -509,7 +509,7 @@ ${I}pass
         <@compound_read_field member.compoundField, name, indent, packed/>
     <#else>
         <#local I>${""?left_pad(indent * 4)}</#local>
-${I}pass
+${I}self._choice = None
     </#if>
 </#macro>
     def read(self, zserio_reader: zserio.BitStreamReader) -> None:
-- 
2.43.0


From 48b0cc68ce11ace87018fd7e078638400427a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 06/19] fix: Python generator: compare bitmask parameters by
 value, not by identity

---
 compiler/extensions/python/freemarker/CompoundField.inc.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/python/freemarker/CompoundField.inc.ftl b/compiler/extensions/python/freemarker/CompoundField.inc.ftl
index 1899346..e23c479 100644
--- a/compiler/extensions/python/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/python/freemarker/CompoundField.inc.ftl
@@ -359,7 +359,7 @@ ${I}                                        "{0} != {1}!".format(len(self.<@fiel
 ${I}# check parameters
         <#list field.compound.instantiatedParameters as instantiatedParameter>
             <#local parameter=field.compound.parameters.list[instantiatedParameter?index]/>
-            <#local compareOperator><#if parameter.typeInfo.isBuiltin>!=<#else>is not</#if><#t></#local>
+            <#local compareOperator><#if parameter.typeInfo.isBuiltin || parameter.typeInfo.isBitmask>!=<#else>is not</#if><#t></#local>
 ${I}if self.<@field_member_name field/>.${parameter.propertyName} ${compareOperator} (${instantiatedParameter.expression}):
 ${I}    raise zserio.PythonRuntimeException("Wrong parameter ${parameter.name} for field ${compoundName}.${field.name}: "
 ${I}                                        "{0} != {1}!".format(self.<@field_member_name field/>.${parameter.propertyName}, ${instantiatedParameter.expression}))
-- 
2.43.0


From ce4e38812b7ce5a08200c59127a1f4fe30dd4cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 07/19] fix: Python generator: enclose boolean operands of
 comparisons in parentheses

---
 .../PythonExpressionFormattingPolicy.java     | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
index c64b2fd..2fd01cb 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
@@ -253,37 +253,37 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
     @Override
     public BinaryExpressionFormatting getEq(Expression expr)
     {
-        return new BinaryExpressionFormatting(" == ");
+        return formatComparison(expr, "==");
     }
 
     @Override
     public BinaryExpressionFormatting getNe(Expression expr)
     {
-        return new BinaryExpressionFormatting(" != ");
+        return formatComparison(expr, "!=");
     }
 
     @Override
     public BinaryExpressionFormatting getLt(Expression expr)
     {
-        return new BinaryExpressionFormatting(" < ");
+        return formatComparison(expr, "<");
     }
 
     @Override
     public BinaryExpressionFormatting getLe(Expression expr)
     {
-        return new BinaryExpressionFormatting(" <= ");
+        return formatComparison(expr, "<=");
     }
 
     @Override
     public BinaryExpressionFormatting getGe(Expression expr)
     {
-        return new BinaryExpressionFormatting(" >= ");
+        return formatComparison(expr, ">=");
     }
 
     @Override
     public BinaryExpressionFormatting getGt(Expression expr)
     {
-        return new BinaryExpressionFormatting(" > ");
+        return formatComparison(expr, ">");
     }
 
     @Override
@@ -363,6 +363,25 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
         return new TernaryExpressionFormattingPython(expr, "(", ") if (", ") else (", ")");
     }
 
+    /**
+     * Formats comparison. Python chains comparisons (a == b == c) and 'not' has lower priority there than
+     * comparisons, so that boolean operands which are expressions must be enclosed in parentheses.
+     */
+    private static BinaryExpressionFormatting formatComparison(Expression expr, String operator)
+    {
+        final boolean encloseOperand1 = isBooleanExpression(expr.op1());
+        final boolean encloseOperand2 = isBooleanExpression(expr.op2());
+
+        return new BinaryExpressionFormatting(encloseOperand1 ? "(" : "",
+                (encloseOperand1 ? ") " : " ") + operator + (encloseOperand2 ? " (" : " "),
+                encloseOperand2 ? ")" : "");
+    }
+
+    private static boolean isBooleanExpression(Expression expr)
+    {
+        return expr.getExprType() == ExpressionType.BOOLEAN && expr.op1() != null;
+    }
+
     protected String getAccessPrefix()
     {
         return accessPrefix;
-- 
2.43.0


From b3531d9e52bd3c554da849f497bcdc26634d25e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:41 +0000
Subject: [PATCH 08/19] fix: Python generator: valueof applies to the whole
 expression, not to its last part only

---
 .../extension/python/PythonExpressionFormattingPolicy.java | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
index 2fd01cb..df6f1c3 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
@@ -190,11 +190,8 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
     @Override
     public UnaryExpressionFormatting getValueOf(Expression expr) throws ZserioExtensionException
     {
-        if (expr.op1().getExprType() == Expression.ExpressionType.ENUM)
-        {
-            return new UnaryExpressionFormatting("", ".value");
-        }
-        else if (expr.op1().getExprType() == Expression.ExpressionType.BITMASK)
+        if (expr.op1().getExprType() == Expression.ExpressionType.ENUM ||
+                expr.op1().getExprType() == Expression.ExpressionType.BITMASK)
         {
             // TODO[Mi-L@]: Use parentheses only when needed (i.e when applied on another expression)
             return new UnaryExpressionFormatting("(", ").value");
-- 
2.43.0


From f00a4348d3067c74eac0ee583e3d056b62ccb13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 09/19] fix: Python generator: integer division and modulo
 round towards zero as in the other languages

---
 .../python/runtime/src/zserio/builtin.py      | 32 +++++++++++++++++++
 .../PythonExpressionFormattingPolicy.java     | 11 +++++--
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/python/runtime/src/zserio/builtin.py b/compiler/extensions/python/runtime/src/zserio/builtin.py
index 96fd5f7..9cdbd65 100644
--- a/compiler/extensions/python/runtime/src/zserio/builtin.py
+++ b/compiler/extensions/python/runtime/src/zserio/builtin.py
@@ -46,3 +46,35 @@ def lengthof_string(string: str) -> int:
     """
 
     return len(string.encode("utf-8"))
+
+
+def divide(dividend: int, divisor: int) -> int:
+    """
+    Divides two integers and rounds the result towards zero (i.e. as the other languages do).
+
+    This method implements zserio operator / for integers.
+
+    :param dividend: Dividend.
+    :param divisor: Divisor.
+    :returns: Quotient rounded towards zero.
+    """
+
+    quotient = abs(dividend) // abs(divisor)
+
+    return quotient if (dividend < 0) == (divisor < 0) else -quotient
+
+
+def modulo(dividend: int, divisor: int) -> int:
+    """
+    Gets remainder of the integer division which rounds towards zero (i.e. as the other languages do).
+
+    This method implements zserio operator %.
+
+    :param dividend: Dividend.
+    :param divisor: Divisor.
+    :returns: Remainder which has the same sign as the dividend.
+    """
+
+    remainder = abs(dividend) % abs(divisor)
+
+    return remainder if dividend >= 0 else -remainder
diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
index df6f1c3..a74b2de 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
@@ -318,15 +318,22 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
     {
         // simulate behavior from other languages (#718)
         if (expr.getExprType() == Expression.ExpressionType.INTEGER)
-            return new BinaryExpressionFormatting(" // ");
+        {
+            importCollector.importPackage("zserio");
+            return new BinaryExpressionFormatting("zserio.builtin.divide(", ", ", ")");
+        }
         else
+        {
             return new BinaryExpressionFormatting(" / ");
+        }
     }
 
     @Override
     public BinaryExpressionFormatting getModulo(Expression expr)
     {
-        return new BinaryExpressionFormatting(" % ");
+        // simulate behavior from other languages
+        importCollector.importPackage("zserio");
+        return new BinaryExpressionFormatting("zserio.builtin.modulo(", ", ", ")");
     }
 
     @Override
-- 
2.43.0


From cbb2d6e74cf570e5639f53db1feac245f29ee53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 10/19] fix: reject the minimum value in Java varint16/32/64
 bit size

---
 .../runtime/src/zserio/runtime/BitSizeOfCalculator.java     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/BitSizeOfCalculator.java b/compiler/extensions/java/runtime/src/zserio/runtime/BitSizeOfCalculator.java
index 046aae5..bba0b02 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/BitSizeOfCalculator.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/BitSizeOfCalculator.java
@@ -20,7 +20,7 @@ public final class BitSizeOfCalculator
     public static int getBitSizeOfVarInt16(short value)
     {
         final short absoluteValue = (short)Math.abs(value);
-        if (absoluteValue >= (short)(1 << (6 + 8)))
+        if (absoluteValue < 0 || absoluteValue >= (short)(1 << (6 + 8)))
             throw new ZserioError("BitSizeOfCalculator: Value '" + value + "' is out of range for varint16!");
 
         return (absoluteValue < (short)1 << 6) ? 8 : 16;
@@ -36,7 +36,7 @@ public final class BitSizeOfCalculator
     public static int getBitSizeOfVarInt32(int value)
     {
         final int absoluteValue = Math.abs(value);
-        if (absoluteValue >= (1 << (6 + 7 + 7 + 8)))
+        if (absoluteValue < 0 || absoluteValue >= (1 << (6 + 7 + 7 + 8)))
             throw new ZserioError("BitSizeOfCalculator: Value '" + value + "' is out of range for varint32!");
 
         int bitSize = 0;
@@ -70,7 +70,7 @@ public final class BitSizeOfCalculator
     public static int getBitSizeOfVarInt64(long value)
     {
         final long absoluteValue = Math.abs(value);
-        if (absoluteValue >= (1L << (6 + 7 + 7 + 7 + 7 + 7 + 7 + 8)))
+        if (absoluteValue < 0 || absoluteValue >= (1L << (6 + 7 + 7 + 7 + 7 + 7 + 7 + 8)))
             throw new ZserioError("BitSizeOfCalculator: Value '" + value + "' is out of range for varint64!");
 
         int bitSize = 0;
-- 
2.43.0


From dc102fdfc46fb568491565c1b35c714ac9bdeb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 11/19] fix: Java bit stream reader must not read beyond the
 buffer bit size

---
 .../runtime/io/ByteArrayBitStreamReader.java  | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
index 3574bff..1b23cc9 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
@@ -751,7 +751,7 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
 
     private int read(final byte[] dest, final int offset, final int length) throws IOException
     {
-        if (bytePosition + length - 1 >= buffer.length)
+        if (getBitPosition() + 8L * length > getBufferBitSize())
             throw new IOException("ByteArrayBitStreamReader: Unable to read " + length +
                     " bytes on offset position " + bytePosition +
                     ". It's beyond end of the stream with length " + buffer.length + ".");
@@ -775,11 +775,11 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
      */
     private byte nextByte() throws IOException
     {
-        if (bytePosition >= buffer.length)
-            throw new IOException("ByteArrayBitStreamReader: Unable to read byte on offset position " +
-                    bytePosition + ". It's beyond end of the stream with length " + buffer.length + ".");
+        if (lastByteBits < 8 && bytePosition == buffer.length - 1) // check if whole byte is available
+            throw new IOException("ByteArrayBitStreamReader: Unable to read whole byte on offset position " +
+                    bytePosition + ". Last byte has only " + lastByteBits + " bits.");
 
-        return buffer[bytePosition++];
+        return nextPartialByte();
     }
 
     /**
@@ -791,7 +791,23 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
      */
     private int nextUnsignedByte() throws IOException
     {
-        return nextByte() & 0xff;
+        return nextPartialByte() & 0xff;
+    }
+
+    /**
+     * Returns the next byte without resetting the bit offset and without checking if all bits are available.
+     *
+     * @return Read next byte.
+     *
+     * @throws IOException If the reading failed.
+     */
+    private byte nextPartialByte() throws IOException
+    {
+        if (bytePosition >= buffer.length)
+            throw new IOException("ByteArrayBitStreamReader: Unable to read byte on offset position " +
+                    bytePosition + ". It's beyond end of the stream with length " + buffer.length + ".");
+
+        return buffer[bytePosition++];
     }
 
     /**
-- 
2.43.0


From 73fd3a56eeb6d62a512307ee1f1091885c2042ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:57 +0000
Subject: [PATCH 12/19] fix: reject Java BitBuffer bit sizes that exceed the
 given bytes after integer truncation

---
 .../java/runtime/src/zserio/runtime/io/BitBuffer.java         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/BitBuffer.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/BitBuffer.java
index 0d513ab..afdedd2 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/BitBuffer.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/BitBuffer.java
@@ -34,11 +34,11 @@ public final class BitBuffer
      */
     public BitBuffer(byte[] buffer, long bitSize) throws IllegalArgumentException
     {
-        final int byteSize = (int)((bitSize + 7) / 8);
-        if (buffer.length < byteSize)
+        if (bitSize > (long)buffer.length * 8)
             throw new IllegalArgumentException("BitBuffer: Bit size " + bitSize +
                     " out of range for given buffer byte size " + buffer.length + "!");
 
+        final int byteSize = (int)((bitSize + 7) / 8);
         this.buffer = new byte[byteSize];
         System.arraycopy(buffer, 0, this.buffer, 0, byteSize);
         this.bitSize = bitSize;
-- 
2.43.0


From 3af746ff79b77189bc5ddda5df34c8b838d7b514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:57 +0000
Subject: [PATCH 13/19] fix: negated value range of an expression had its
 bounds swapped

---
 compiler/core/src/zserio/ast/ExpressionIntegerValue.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
index 94adad7..78074d7 100644
--- a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
+++ b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
@@ -138,7 +138,7 @@ final class ExpressionIntegerValue
             return new ExpressionIntegerValue(value.negate());
 
         if (lowerBound != null && upperBound != null)
-            return new ExpressionIntegerValue(lowerBound.negate(), upperBound.negate(), needsBigInteger);
+            return new ExpressionIntegerValue(upperBound.negate(), lowerBound.negate(), needsBigInteger);
 
         return new ExpressionIntegerValue(needsBigInteger);
     }
-- 
2.43.0


From b93ef99fabbd4dbfff7895a163e47d96e314e2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:57 +0000
Subject: [PATCH 14/19] fix: value range of shift expressions with negative
 operands or a range of shift counts

---
 .../zserio/ast/ExpressionIntegerValue.java    | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
index 78074d7..c94393b 100644
--- a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
+++ b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
@@ -311,8 +311,16 @@ final class ExpressionIntegerValue
         if (lowerBound != null && upperBound != null && operand.lowerBound != null &&
                 operand.upperBound != null)
         {
-            return new ExpressionIntegerValue(lowerBound.shiftLeft(operand.lowerBound.intValue()),
-                    upperBound.shiftLeft(operand.upperBound.intValue()), needsBigInteger);
+            // shifts by other counts are not defined for any native type
+            final int minCount = operand.lowerBound.max(BigInteger.ZERO).min(MAX_SHIFT_COUNT).intValue();
+            final int maxCount = operand.upperBound.max(BigInteger.ZERO).min(MAX_SHIFT_COUNT).intValue();
+            final MinMaxValue minMaxValue = new MinMaxValue();
+            minMaxValue.add(lowerBound.shiftLeft(minCount));
+            minMaxValue.add(lowerBound.shiftLeft(maxCount));
+            minMaxValue.add(upperBound.shiftLeft(minCount));
+            minMaxValue.add(upperBound.shiftLeft(maxCount));
+
+            return new ExpressionIntegerValue(minMaxValue.getMin(), minMaxValue.getMax(), needsBigInteger);
         }
 
         return new ExpressionIntegerValue(needsBigInteger);
@@ -333,8 +341,16 @@ final class ExpressionIntegerValue
         if (lowerBound != null && upperBound != null && operand.lowerBound != null &&
                 operand.upperBound != null)
         {
-            return new ExpressionIntegerValue(lowerBound.shiftRight(operand.lowerBound.intValue()),
-                    upperBound.shiftRight(operand.upperBound.intValue()), needsBigInteger);
+            // shifts by other counts are not defined for any native type
+            final int minCount = operand.lowerBound.max(BigInteger.ZERO).min(MAX_SHIFT_COUNT).intValue();
+            final int maxCount = operand.upperBound.max(BigInteger.ZERO).min(MAX_SHIFT_COUNT).intValue();
+            final MinMaxValue minMaxValue = new MinMaxValue();
+            minMaxValue.add(lowerBound.shiftRight(minCount));
+            minMaxValue.add(lowerBound.shiftRight(maxCount));
+            minMaxValue.add(upperBound.shiftRight(minCount));
+            minMaxValue.add(upperBound.shiftRight(maxCount));
+
+            return new ExpressionIntegerValue(minMaxValue.getMin(), minMaxValue.getMax(), needsBigInteger);
         }
 
         return new ExpressionIntegerValue(needsBigInteger);
@@ -529,6 +545,8 @@ final class ExpressionIntegerValue
         private BigInteger maxValue;
     }
 
+    private static final BigInteger MAX_SHIFT_COUNT = BigInteger.valueOf(63);
+
     private final BigInteger value;
     private final BigInteger lowerBound;
     private final BigInteger upperBound;
-- 
2.43.0


From 764475ba2d1ec158ad6c1e90ac035d54f75c9155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:57 +0000
Subject: [PATCH 15/19] fix: numbits of a compile-time zero is 0 as in the
 runtime libraries

---
 compiler/core/src/zserio/ast/ExpressionIntegerValue.java | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
index c94393b..4531382 100644
--- a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
+++ b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
@@ -509,6 +509,9 @@ final class ExpressionIntegerValue
     // TODO This is redundant with runtime library but we don't have available runtime library in Zserio core.
     private BigInteger getNumBits(BigInteger value)
     {
+        if (value.signum() <= 0)
+            return BigInteger.ZERO;
+
         if (value.doubleValue() < 2.0)
             return BigInteger.ONE;
 
-- 
2.43.0


From 3b82e432d145bc53e397187c230050e012538325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:04 +0000
Subject: [PATCH 16/19] fix: bit size of the smallest varint32 and varint64
 argument negated a value without a positive counterpart in C++

---
 .../extensions/cpp/runtime/src/zserio/BitSizeOfCalculator.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/BitSizeOfCalculator.cpp b/compiler/extensions/cpp/runtime/src/zserio/BitSizeOfCalculator.cpp
index 6f4cf92..a274022 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/BitSizeOfCalculator.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/BitSizeOfCalculator.cpp
@@ -111,7 +111,7 @@ static size_t bitSizeOfVarIntImpl(
 template <typename T>
 static uint64_t convertToAbsValue(T value)
 {
-    return static_cast<uint64_t>((value < 0) ? -value : value);
+    return (value < 0) ? UINT64_C(0) - static_cast<uint64_t>(value) : static_cast<uint64_t>(value);
 }
 
 size_t bitSizeOfVarInt16(int16_t value)
-- 
2.43.0


From 7e0fd8551cbb708c117ea3b29958f6a4f15b090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:38 +0000
Subject: [PATCH 17/19] fix: C++ readVarSize accepted encodings of values
 beyond 32 bits as a different size

---
 .../cpp/runtime/src/zserio/BitStreamReader.cpp         | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp b/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
index c4448df..29fa506 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
@@ -804,14 +804,16 @@ uint32_t BitStreamReader::readVarSize()
         return result;
     }
 
-    result = result << 8U | static_cast<uint8_t>(readBitsImpl(m_context, 8)); // byte 5
-    if (result > VARSIZE_MAX_VALUE)
+    // the 36 bits of the longest encoding do not fit into 32 bits
+    const uint64_t longResult = static_cast<uint64_t>(result) << 8U |
+            static_cast<uint8_t>(readBitsImpl(m_context, 8)); // byte 5
+    if (longResult > VARSIZE_MAX_VALUE)
     {
         throw CppRuntimeException("BitStreamReader: Read value '")
-                << result << "' is out of range for varsize type!";
+                << longResult << "' is out of range for varsize type!";
     }
 
-    return result;
+    return static_cast<uint32_t>(longResult);
 }
 
 float BitStreamReader::readFloat16()
-- 
2.43.0


From 2fd8166c8116bc99aa900336f809138577b514a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:36 +0000
Subject: [PATCH 18/19] fix: Java writer failed to grow its buffer for byte
 sequences of 2^28 bytes and more

---
 .../src/zserio/runtime/io/ByteArrayBitStreamWriter.java        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamWriter.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamWriter.java
index d6433ae..ea4860f 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamWriter.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamWriter.java
@@ -517,7 +517,8 @@ public final class ByteArrayBitStreamWriter extends ByteArrayBitStreamBase imple
     private void write(final byte[] src, final int offset, final int length) throws IOException
     {
         flushBits();
-        ensureCapacity(8 * length);
+        if (length >= buffer.length - 1 - bytePosition) // number of bits might not fit into integer
+            growBuffer(bytePosition + length + 1);
         System.arraycopy(src, offset, buffer, bytePosition, length);
         this.bytePosition += length;
     }
-- 
2.43.0


From 79fe159bf5ccf79c8a24dfc8286b1592951b92e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:36 +0000
Subject: [PATCH 19/19] fix: Java reader computed a negative buffer size for
 bit buffers longer than 2^31 - 8 bits

---
 .../runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
index 1b23cc9..ac52c55 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
@@ -626,7 +626,7 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         }
         final int numBytesToRead = bitSize / 8;
         final byte numRestBits = (byte)(bitSize - numBytesToRead * 8);
-        final int byteSize = (bitSize + 7) / 8;
+        final int byteSize = (int)((bitSize + 7L) / 8);
         final byte[] readBuffer = new byte[byteSize];
         if (bitOffset != 0)
         {
-- 
2.43.0

