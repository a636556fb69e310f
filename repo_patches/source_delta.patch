From 41edf862a7700b409775ed78ed90770ef863f999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 01/21] fix: carry of 64-bit addends in Aeu += Unsigned was
 lost on overflow

---
 include/AesiMultiprecision/Aeu.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 5773baf..c2ca792 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -361,9 +361,12 @@ public:
          */
         template <typename Unsigned> requires (std::is_unsigned_v<Unsigned>)
         gpu constexpr friend auto operator+=(Aeu& addition, Unsigned addendum) noexcept -> Aeu& {
+            auto rest = static_cast<uint64_t>(addendum);
+            uint64_t carryOut = 0;
             for(std::size_t i = 0; i < blocksNumber; ++i) {
-                const auto currentSum = static_cast<uint64_t>(addition.blocks[i]) + static_cast<uint64_t>(addendum);
-                addendum = static_cast<Unsigned>(currentSum / blockBase); addition.blocks[i] = static_cast<block>(currentSum % blockBase);
+                const auto currentSum = static_cast<uint64_t>(addition.blocks[i]) + rest % blockBase + carryOut;
+                carryOut = currentSum / blockBase; addition.blocks[i] = static_cast<block>(currentSum % blockBase);
+                rest /= blockBase;
             }
             return addition;
         }
-- 
2.43.0


From 35256e94ae6d25a53f0b9c193b3ee5e6d67e2372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 02/21] fix: Aeu *= unsigned long long overflowed the 64-bit
 partial product

---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index c2ca792..dfef0c3 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -439,7 +439,7 @@ public:
          */
         template <typename Unsigned> requires (std::is_unsigned_v<Unsigned>)
         gpu constexpr friend auto operator*=(Aeu& multiplication, Unsigned factor) noexcept -> Aeu& {
-            if constexpr (std::is_same_v<Unsigned, uint64_t>) {
+            if constexpr (sizeof(Unsigned) >= sizeof(uint64_t)) {
                 const auto longerLength = multiplication.filledBlocksNumber();
                 const auto smallerLength = (factor > blockMax ? 2UL : 1UL);
                 blockLine buffer {};
-- 
2.43.0


From ac7e1e25c7693e65a4522199d569d716f53d077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 03/21] fix: compareTo for different precisions ignored excess
 high blocks when low blocks differ

---
 include/AesiMultiprecision/Aeu.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index dfef0c3..8003e80 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -809,11 +809,6 @@ public:
             using enum Comparison;
 
             const auto lowerBlockBorder = (blocksNumber < other.totalBlocksNumber() ? blocksNumber : other.totalBlocksNumber());
-            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
-                const block thisBlock = blocks[i], otherBlock = other.getBlock(i);
-                if(thisBlock != otherBlock)
-                    return (thisBlock > otherBlock ? greater : less);
-            }
 
             if constexpr (otherBitness != blocksNumber * blockBitLength) {
                 using enum Comparison;
@@ -828,6 +823,12 @@ public:
                 }
             }
 
+            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
+                const block thisBlock = blocks[i], otherBlock = other.getBlock(i);
+                if(thisBlock != otherBlock)
+                    return (thisBlock > otherBlock ? greater : less);
+            }
+
             return equal;
         }
     /* --------------------------------------------------------------------------- */
-- 
2.43.0


From 35c369f535cc09c89ef23c01b8a1ecaa86b9a7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 04/21] fix: setByte/getByte accessed one byte past the number

---
 include/AesiMultiprecision/Aeu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 8003e80..4e6488f 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -933,7 +933,7 @@ public:
      */
     gpu constexpr auto setByte(std::size_t index, byte byte) noexcept -> void {
 #ifndef AESI_UNSAFE
-        if(index > blocksNumber * sizeof(block)) return;
+        if(index >= blocksNumber * sizeof(block)) return;
 #endif
         const std::size_t blockNumber = index / sizeof(block), byteInBlock = index % sizeof(block), shift = byteInBlock * bitsInByte;
         assert(blockNumber < blocksNumber && byteInBlock < sizeof(block));
@@ -949,7 +949,7 @@ public:
     [[nodiscard]]
     gpu constexpr auto getByte(std::size_t index) const noexcept -> byte {
 #ifndef AESI_UNSAFE
-        if(index > blocksNumber * sizeof(block)) return 0;
+        if(index >= blocksNumber * sizeof(block)) return 0;
 #endif
         const std::size_t blockNumber = index / sizeof(block), byteInBlock = index % sizeof(block), shift = byteInBlock * bitsInByte;
         assert(blockNumber < blocksNumber && byteInBlock < sizeof(block));
-- 
2.43.0


From 5143b0fea4570ae5bc05200f7bb8db1a0aa61ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 05/21] fix: powm returned wrong results for zero base, zero
 power and modulo 1

---
 include/AesiMultiprecision/Aeu.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 4e6488f..eb56d44 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1203,12 +1203,7 @@ public:
      */
     template <std::size_t powerBitness = bitness> [[nodiscard]]
     gpu static constexpr auto powm(const Aeu& base, const Aeu<powerBitness>& power, const Aeu& modulo) noexcept -> Aeu {
-        if(base == 1u)
-            return base;
-        if(base == 0u)
-            return { 1u };
-
-        Aeu output = 1u;
+        Aeu output = Aeu(1u) % modulo;
         auto [_, b] = divide(base, modulo);
 
         for(unsigned iteration = 0; power.filledBlocksNumber() * blockBitLength != iteration; iteration++) {
@@ -1226,7 +1221,7 @@ public:
 
     [[nodiscard]]
     gpu static constexpr auto powm(const Aeu& base, const Aeu& power, const Aeu& mod) noexcept -> Aeu {
-        Aeu output = 1u;
+        Aeu output = Aeu(1u) % mod;
         auto [_, b] = divide(base, mod);
 
         for(std::size_t iteration = 0; power.filledBlocksNumber() * blockBitLength != iteration; iteration++) {
-- 
2.43.0


From f6065de29b389f33826a2669b5060a25d7fec2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 06/21] fix: getString wrote outside of small buffers and did
 not terminate zero

---
 include/AesiMultiprecision/Aesi.h | 47 ++++++-------------------------
 include/AesiMultiprecision/Aeu.h  | 32 ++++++---------------
 2 files changed, 17 insertions(+), 62 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 960e459..9af3dd6 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1053,7 +1053,7 @@ public:
       * @param bufferSize Size_t
       * @param showBase Boolean
       * @param hexUppercase Boolean
-      * @return Size_t - amount of symbols written
+      * @return Size_t - amount of symbols written, including terminating zero
       * @details Places the maximum possible amount of number's characters in buffer. Base parameter should be 2, 8, 10, or 16
       * @note Works significantly faster for hexadecimal notation
       */
@@ -1061,47 +1061,16 @@ public:
     gpu constexpr auto getString(Char* buffer, std::size_t bufferSize, bool showBase = false) const noexcept -> std::size_t {
         using enum Sign;
 
-        if(sign != Zero) {
-            if(sign == Negative && bufferSize > 0) {
-                *buffer++ = [] { if constexpr (std::is_same_v<Char, char>) { return '-'; } else { return L'-'; } } ();
-                --bufferSize;
-            }
-            return base.template getString<notation, hexUppercase, Char>(buffer, bufferSize, showBase);
-        }
+        if(sign == Zero)
+            return Base {}.template getString<notation, hexUppercase, Char>(buffer, bufferSize, showBase);
 
-        if(showBase) {
-            switch(notation) {
-                case 2: {
-                    if(bufferSize < 3) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'b'; } else { return L'b'; } } ();
-                    buffer[2] = buffer[0];
-                    return 3;
-                }
-                case 8: {
-                    if(bufferSize < 3) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'o'; } else { return L'o'; } } ();
-                    buffer[2] = buffer[0];
-                    return 3;
-                }
-                case 16: {
-                    if(bufferSize < 3) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'x'; } else { return L'x'; } } ();
-                    buffer[2] = buffer[0];
-                    return 3;
-                }
-                default: {
-                    if(bufferSize < 1) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    return 1;
-                }
-            }
+        if(sign == Negative) {
+            if(bufferSize < 3) return 0;
+            *buffer = [] { if constexpr (std::is_same_v<Char, char>) { return '-'; } else { return L'-'; } } ();
+            return 1 + base.template getString<notation, hexUppercase, Char>(buffer + 1, bufferSize - 1, showBase);
         }
 
-        buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-        return 1;
+        return base.template getString<notation, hexUppercase, Char>(buffer, bufferSize, showBase);
     }
 
     /**
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index eb56d44..c4a2b4f 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1272,7 +1272,7 @@ public:
      * @param bufferSize Size_t
      * @param showBase Boolean 
      * @param hexUppercase Boolean
-     * @return Size_t - amount of symbols written
+     * @return Size_t - amount of symbols written, including terminating zero
      * @details Places the maximum possible amount of number's characters in buffer. Base parameter should be 2, 8, 10, or 16
      * @note Works significantly faster for hexadecimal notation
      */
@@ -1309,40 +1309,26 @@ public:
 
         if(isZero()) {
             buffer[position++] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; }}();
+            buffer[position++] = Char {};
             return position;
         }
 
         if constexpr (base == 16) {
-            std::size_t iter = blocks.size() - 1;
-            for (; iter > 0 && blocks[iter] == 0; --iter)
-                ;
+            constexpr std::size_t bitsInDigit = 4, digitsInBlock = blockBitLength / bitsInDigit;
 
-            if constexpr (std::is_same_v<Char, char>) {
-                if constexpr (hexUppercase) {
-                    position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%X", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%08X", blocks[iter]));
-                } else {
-                    position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%x", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%08x", blocks[iter]));
-                }
-            } else {
-                if constexpr (hexUppercase) {
-                    position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%X", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%08X", blocks[iter]));
+            for (std::size_t digitIdx = (bitCount() + bitsInDigit - 1) / bitsInDigit; digitIdx-- > 0 && position + 1 < bufferSize;) {
+                const auto digit = (blocks[digitIdx / digitsInBlock] >> (digitIdx % digitsInBlock * bitsInDigit)) & 0xfu;
+                if constexpr (std::is_same_v<Char, char>) {
+                    buffer[position++] = static_cast<Char>(digit < 10 ? '0' + digit : (hexUppercase ? 'A' : 'a') + (digit - 10));
                 } else {
-                    position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%x", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%08x", blocks[iter]));
+                    buffer[position++] = static_cast<Char>(digit < 10 ? L'0' + digit : (hexUppercase ? L'A' : L'a') + (digit - 10));
                 }
             }
         } else {
             const auto startPosition = position;
 
             Aeu copy = *this;
-            while (!copy.isZero() && position < bufferSize) {
+            while (!copy.isZero() && position + 1 < bufferSize) {
                 auto [quotient, remainder] = divide(copy, base);
                 if constexpr (std::is_same_v<Char, char>) {
                     buffer[position++] = static_cast<Char>('0' + remainder.template integralCast<byte>());
-- 
2.43.0


From aa7e780f28b5be1650209838169509bb92e82b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 07/21] fix: hexadecimal stream output left fill and adjustment
 of the stream changed

---
 include/AesiMultiprecision/Aeu.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index c4a2b4f..e858874 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1385,10 +1385,14 @@ public:
                 ;
 
             os << number.blocks[iter];
+
+            const auto fill = os.fill([] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ());
+            const auto adjustment = os.setf(std::ios::right, std::ios::adjustfield);
             for (; iter-- > 0;) {
-                os.fill([] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ());
-                os.width(8); os << std::right << number.blocks[iter];
+                os.width(8); os << number.blocks[iter];
             }
+            os.setf(adjustment, std::ios::adjustfield);
+            os.fill(fill);
         } else {
             /* Well, here we use a pre-calculated magic number to ratio the length of numbers in decimal or octal notation according to bitness.
              * * It is 2.95-98 for octal and 3.2 for decimal. */
-- 
2.43.0


From b29a733d7b13a7243d07b75f372f364ada890dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 08/21] fix: built-in minimum values were negated with overflow
 in Aesi

---
 include/AesiMultiprecision/Aesi.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 9af3dd6..5c3a83e 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -100,7 +100,7 @@ public:
     gpu constexpr Aesi(Integral value) noexcept {
         using enum Sign;
         if(value < 0) {
-            base = Base(static_cast<unsigned long long>(-value));
+            base = Base(0ULL - static_cast<unsigned long long>(value));
             sign = Negative;
         } else if(value > 0) {
             base = Base(static_cast<unsigned long long>(value));
@@ -428,11 +428,12 @@ public:
             if(factor == 0) {
                 multiplication.sign = Zero;
             } else {
+                auto magnitude = static_cast<unsigned long long>(factor);
                 if(factor < 0) {
                     multiplication.inverse();
-                    factor = static_cast<Integral>(-factor);
+                    magnitude = 0ULL - magnitude;
                 }
-                multiplication.base *= static_cast<unsigned long long>(factor);
+                multiplication.base *= magnitude;
             }
             return multiplication;
         }
@@ -494,11 +495,12 @@ public:
             if(divisor == 0) {
                 division.sign = Zero;
             } else {
+                auto magnitude = static_cast<unsigned long long>(divisor);
                 if(divisor < 0) {
                     division.inverse();
-                    divisor = static_cast<Integral>(-divisor);
+                    magnitude = 0ULL - magnitude;
                 }
-                division.base /= static_cast<unsigned long long>(divisor);
+                division.base /= magnitude;
                 if(division.base.isZero()) division.sign = Zero;
             }
             return division;
@@ -564,11 +566,12 @@ public:
             if(modulo == 0) {
                 modulation.sign = Zero;
             } else {
+                auto magnitude = static_cast<unsigned long long>(modulo);
                 if(modulo < 0) {
                     modulation.inverse();
-                    modulo = static_cast<Integral>(-modulo);
+                    magnitude = 0ULL - magnitude;
                 }
-                modulation.base %= static_cast<unsigned long long>(modulo);
+                modulation.base %= magnitude;
             }
             return modulation;
         }
@@ -659,7 +662,7 @@ public:
                 }
             } else if(integral < 0) {
                 if(sign == Negative)
-                    switch(base.compareTo(static_cast<uint64_t>(-static_cast<int64_t>(integral)))) {
+                    switch(base.compareTo(uint64_t(0) - static_cast<uint64_t>(integral))) {
                         using enum Comparison;
                         case greater:
                             return less;
@@ -1011,7 +1014,7 @@ public:
 
         if constexpr (std::is_signed_v<Integral>) {
             if(sign == Negative)
-                return base.template integralCast<Integral>() * -1;
+                return static_cast<Integral>(uint64_t(0) - base.template integralCast<uint64_t>());
         }
 
         return base.template integralCast<Integral>();
-- 
2.43.0


From ecf11ffe8ec3e580af238bab7f0461b53cdfddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 09/21] fix: Aesi remainder takes the sign of the dividend and
 is zero-signed when zero

---
 include/AesiMultiprecision/Aesi.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 5c3a83e..803cead 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -567,11 +567,10 @@ public:
                 modulation.sign = Zero;
             } else {
                 auto magnitude = static_cast<unsigned long long>(modulo);
-                if(modulo < 0) {
-                    modulation.inverse();
+                if(modulo < 0)
                     magnitude = 0ULL - magnitude;
-                }
                 modulation.base %= magnitude;
+                if(modulation.base.isZero()) modulation.sign = Zero;
             }
             return modulation;
         }
@@ -588,8 +587,6 @@ public:
             if(modulo.isZero())
                 return modulation;
 
-            if(modulo.isNegative())
-                modulation.inverse();
             modulation.base %= modulo.base;
             if(modulation.base.isZero())
                 modulation.sign = Sign::Zero;
-- 
2.43.0


From 3a8dd6b98f4a010401a9873141b0a9dc197b7ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 10/21] fix: every Aesi operation resulting in zero produces
 the canonical zero

---
 include/AesiMultiprecision/Aesi.h | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 803cead..3061347 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -148,7 +148,7 @@ public:
      * @brief Unsigned integer conversion
      * @param value Aeu&
      */
-    explicit gpu constexpr Aesi(const Aeu<bitness>& value) : sign(Sign::Positive), base(value) {}
+    explicit gpu constexpr Aesi(const Aeu<bitness>& value) : sign(value.isZero() ? Sign::Zero : Sign::Positive), base(value) {}
 
 
 #ifdef AESI_GMP_INTEGRATION
@@ -163,7 +163,9 @@ public:
             sign = Zero;
         } else {
             base = number;
-            if(number < 0)
+            if(base.isZero())
+                sign = Zero;
+            else if(number < 0)
                 sign = Negative;
             else sign = Positive;
         }
@@ -212,7 +214,7 @@ public:
             if(sign == Negative) {
                 --base; if(base.isZero()) sign = Zero;
             } else if(sign == Positive) {
-                ++base;
+                ++base; if(base.isZero()) sign = Zero;
             } else { base = 1u; sign = Positive; }
             return *this;
         }
@@ -230,7 +232,7 @@ public:
         gpu constexpr auto operator--() noexcept -> Aesi& {
             using enum Sign;
             if(sign == Negative) {
-                ++base;
+                ++base; if(base.isZero()) sign = Zero;
             } else if(sign == Positive) {
                 --base; if(base.isZero()) sign = Zero;
             } else { base = 1u; sign = Negative; }
@@ -273,6 +275,7 @@ public:
                 return addition = addendum;
             else if(lSign == rSign) {
                 lBase += rBase;
+                if(lBase.isZero()) lSign = Zero;
                 return addition;
             }
 
@@ -290,6 +293,7 @@ public:
                     }
                     default: {
                         lSign = Zero;
+                        lBase = {};
                         return addition;
                     }
                 }
@@ -307,6 +311,7 @@ public:
                     }
                     default: {
                         lSign = Zero;
+                        lBase = {};
                         return addition;
                     }
                 }
@@ -360,11 +365,13 @@ public:
                         }
                         default: {
                             lSign = Zero;
+                            lBase = {};
                             return subtraction;
                         }
                     }
                 } else {
                     lBase += rBase;
+                    if(lBase.isZero()) lSign = Zero;
                     return subtraction;
                 }
             } else {
@@ -382,11 +389,13 @@ public:
                         }
                         default: {
                             lSign = Zero;
+                            lBase = {};
                             return subtraction;
                         }
                     }
                 } else {
                     lBase += rBase;
+                    if(lBase.isZero()) lSign = Zero;
                     return subtraction;
                 }
             }
@@ -427,6 +436,7 @@ public:
             using enum Sign;
             if(factor == 0) {
                 multiplication.sign = Zero;
+                multiplication.base = {};
             } else {
                 auto magnitude = static_cast<unsigned long long>(factor);
                 if(factor < 0) {
@@ -434,6 +444,7 @@ public:
                     magnitude = 0ULL - magnitude;
                 }
                 multiplication.base *= magnitude;
+                if(multiplication.base.isZero()) multiplication.sign = Zero;
             }
             return multiplication;
         }
@@ -448,10 +459,12 @@ public:
             using enum Sign;
             if(factor.isZero()) {
                 multiplication.sign = Zero;
+                multiplication.base = {};
             } else {
                 if(factor.isNegative())
                     multiplication.inverse();
                 multiplication.base *= factor.base;
+                if(multiplication.base.isZero()) multiplication.sign = Zero;
             }
             return multiplication;
         }
@@ -494,6 +507,7 @@ public:
             using enum Sign;
             if(divisor == 0) {
                 division.sign = Zero;
+                division.base = {};
             } else {
                 auto magnitude = static_cast<unsigned long long>(divisor);
                 if(divisor < 0) {
@@ -517,6 +531,7 @@ public:
             using enum Sign;
             if(divisor.isZero()) {
                 division.sign = Zero;
+                division.base = {};
             } else {
                 if(divisor.isNegative())
                     division.inverse();
@@ -565,6 +580,7 @@ public:
             using enum Sign;
             if(modulo == 0) {
                 modulation.sign = Zero;
+                modulation.base = {};
             } else {
                 auto magnitude = static_cast<unsigned long long>(modulo);
                 if(modulo < 0)
@@ -942,8 +958,8 @@ public:
     gpu static constexpr auto divide(const Aesi& number, const Aesi& divisor, Aesi& quotient, Aesi& remainder) noexcept -> void {
         using enum Sign;
         if(number.sign == Zero || divisor.sign == Zero) {
-            quotient.sign = Zero;
-            remainder.sign = Zero;
+            quotient = Aesi { Zero, Base {} };
+            remainder = Aesi { Zero, Base {} };
             return;
         }
 
@@ -1031,6 +1047,9 @@ public:
             for(std::size_t blockIdx = 0; blockIdx < blockBoarder; ++blockIdx)
                 result.setBlock(blockIdx, getBlock(blockIdx));
 
+            if(result.filledBlocksNumber() == 0)
+                return Aesi<newBitness> {};
+
             if(sign == Negative)
                 result.inverse();
 
-- 
2.43.0


From 1dc4ce68bc38337426c73b2bd711c0d097208fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 11/21] fix: Aesi comparison of different precisions truncated
 the wider operand

---
 include/AesiMultiprecision/Aesi.h | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 3061347..0782830 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -633,11 +633,7 @@ public:
          */
         template <std::size_t otherBitness>
         gpu constexpr friend auto operator==(const Aesi& our, const Aesi<otherBitness>& other) noexcept -> bool {
-            if constexpr (bitness == otherBitness) {
-                return our.compareTo(other) == Comparison::equal;
-            } else {
-                return our.precisionCast<otherBitness>() == other;
-            }
+            return our.compareTo(other) == Comparison::equal;
         }
 
 #ifdef AESI_GMP_INTEGRATION
@@ -699,16 +695,6 @@ public:
          */
         template <std::size_t otherBitness = bitness> [[nodiscard]]
         gpu constexpr auto compareTo(const Aesi<otherBitness>& value) const noexcept -> Comparison {
-            return precisionCast<otherBitness>().compareTo(value);
-        }
-
-        /**
-         * @brief Comparison operator
-         * @param value Aesi&
-         * @return Comparison
-         */
-        [[nodiscard]]
-        gpu constexpr auto compareTo(const Aesi& value) const noexcept -> Comparison {
             using enum Sign; using enum Comparison;
             if(value.isZero()) {
                 switch(sign) {
@@ -723,7 +709,7 @@ public:
 
             if(value.isNegative()) {
                 if(sign == Negative)
-                    switch(base.compareTo(value.base)) {
+                    switch(base.compareTo(value.unsignedCast())) {
                         case greater:
                             return less;
                         case less:
@@ -735,7 +721,7 @@ public:
             }
 
             if(sign == Positive)
-                return base.compareTo(value.base);
+                return base.compareTo(value.unsignedCast());
             return less;
         }
     /* --------------------------------------------------------------------------- */
-- 
2.43.0


From bc2bcf3db4764c08251ead02febb681e2d5f9d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 12/21] fix: equality against GMP values ignored sign and bits
 beyond the precision

---
 include/AesiMultiprecision/Aesi.h | 3 ++-
 include/AesiMultiprecision/Aeu.h  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 0782830..618a71b 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -645,7 +645,8 @@ public:
          */
         template <typename T, typename U>
         constexpr friend auto operator==(const Aesi& our, const __gmp_expr<T, U>& other) noexcept -> bool {
-            return our == Aesi(mpz_class(other));
+            const mpz_class value(other);
+            return mpz_sizeinbase(value.get_mpz_t(), 2) <= bitness && our == Aesi(value);
         }
 #endif
     /* --------------------------------------------------------------------------- */
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index e858874..3896f9c 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -754,7 +754,8 @@ public:
          */
         template <typename T, typename U>
         constexpr friend auto operator==(const Aeu& our, const __gmp_expr<T, U>& other) noexcept -> bool {
-            return our == Aeu(mpz_class(other));
+            const mpz_class value(other);
+            return value >= 0 && mpz_sizeinbase(value.get_mpz_t(), 2) <= bitness && our == Aeu(value);
         }
 #endif
     /* --------------------------------------------------------------------------- */
-- 
2.43.0


From 7bbc97bf694258bafb813aaa168225389fc19635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 13/21] fix: old-style comparison operators did not compile
 (Aeu) or took the wrong type (Aesi)

---
 include/AesiMultiprecision/Aesi.h | 12 ++++++------
 include/AesiMultiprecision/Aeu.h  |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 618a71b..368074f 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -732,19 +732,19 @@ public:
         /**
          * @brief Oldstyle comparison operator(s). Used inside CUDA cause it does not support <=> operator.
          */
-        gpu constexpr auto operator!=(const Aeu<bitness>& value) const noexcept -> bool {
-            return !this->operator==(value);
+        gpu constexpr auto operator!=(const Aesi& value) const noexcept -> bool {
+            return this->compareTo(value) != Comparison::equal;
         }
-        gpu constexpr auto operator<(const Aeu<bitness>& value) const noexcept -> bool {
+        gpu constexpr auto operator<(const Aesi& value) const noexcept -> bool {
             return this->compareTo(value) == Comparison::less;
         }
-        gpu constexpr auto operator<=(const Aeu<bitness>& value) const noexcept -> bool {
+        gpu constexpr auto operator<=(const Aesi& value) const noexcept -> bool {
             return !this->operator>(value);
         }
-        gpu constexpr auto operator>(const Aeu<bitness>& value) const noexcept -> bool {
+        gpu constexpr auto operator>(const Aesi& value) const noexcept -> bool {
             return this->compareTo(value) == Comparison::greater;
         }
-        gpu constexpr auto operator>=(const Aeu<bitness>& value) const noexcept -> bool {
+        gpu constexpr auto operator>=(const Aesi& value) const noexcept -> bool {
             return !this->operator<(value);
         }
 #else
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 3896f9c..2f57641 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -840,7 +840,7 @@ public:
         /**
          * @brief Oldstyle comparison operator(s). Used inside CUDA because it does not support <=> on preCpp20
          */
-        gpu constexpr auto operator!=(const Aeu& value) const noexcept -> bool { return !this->operator==(value); }
+        gpu constexpr auto operator!=(const Aeu& value) const noexcept -> bool { return this->compareTo(value) != Comparison::equal; }
         gpu constexpr auto operator<(const Aeu& value) const noexcept -> bool { return this->compareTo(value) == Comparison::less; }
         gpu constexpr auto operator<=(const Aeu& value) const noexcept -> bool { return !this->operator>(value); }
         gpu constexpr auto operator>(const Aeu& value) const noexcept -> bool { return this->compareTo(value) == Comparison::greater; }
-- 
2.43.0


From 039bc19b006a68de4cb18ccf284957749ffab25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 14/21] fix: writeBinary terminated the program when the stream
 reports failures by exceptions

---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 2f57641..a4805e8 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1443,7 +1443,7 @@ public:
      * @details Writes number in stream using .write method. Accepts STD streams based on char or wchar_t.
      */
     template <typename Char> requires (std::is_same_v<Char, char> || std::is_same_v<Char, wchar_t>)
-    constexpr auto writeBinary(std::basic_ostream<Char>& os, bool bigEndian = true) const noexcept -> void {
+    constexpr auto writeBinary(std::basic_ostream<Char>& os, bool bigEndian = true) const -> void {
         if(bigEndian) {
             for(auto it = blocks.rbegin(); it != blocks.rend(); ++it)
                 if(!os.write(reinterpret_cast<const char*>(&*it), sizeof(block))) break;
-- 
2.43.0


From b7e9a8e5541c4cd08fc264b616e0232a7d236a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 15/21] fix: tryAtomicExchange takes the number it exchanges
 with by reference and exchanges the sign

---
 include/AesiMultiprecision/Aesi.h | 4 +++-
 include/AesiMultiprecision/Aeu.h  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 368074f..1428666 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1120,9 +1120,11 @@ public:
      * @note Method itself is not fully-atomic. There may be race conditions between two consecutive atomic calls on number blocks.
      * This method is an interface for exchanging encapsulated class members atomically one by one
      */
-    __device__ constexpr auto tryAtomicExchange(const Aesi& value) noexcept -> void {
+    __device__ constexpr auto tryAtomicExchange(Aesi& value) noexcept -> void {
         base.tryAtomicExchange(value.base);
+        const Sign previous = sign;
         sign = value.sign; /* TODO: Make enum substitution using existing CUDA atomics */
+        value.sign = previous;
     }
 #endif
 };
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index a4805e8..11cd1f2 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1507,7 +1507,7 @@ public:
      * @note Method itself is not fully-atomic. There may be race conditions between two consecutive atomic calls on number blocks.
      * This method is an interface for exchanging encapsulated class members atomically one by one
      */
-    __device__ constexpr auto tryAtomicExchange(const Aeu& value) noexcept -> void {
+    __device__ constexpr auto tryAtomicExchange(Aeu& value) noexcept -> void {
         for(std::size_t i = 0; i < blocksNumber; ++i)
             atomicExch(&value.blocks[i], atomicExch(&blocks[i], value.blocks[i]));
     }
-- 
2.43.0


From 8b281d54a2fdbb2605cb31baeee034a9b876b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:56 +0000
Subject: [PATCH 16/21] fix: write hexadecimal digits as text, untouched by the
 stream's locale and failures

Each block was inserted as an unsigned integer after changing the stream's fill
and adjustment: a locale with digit grouping corrupted the numeral, and an
exception thrown by the stream left its formatting changed.
---
 include/AesiMultiprecision/Aeu.h | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 11cd1f2..fd7af1c 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1381,19 +1381,13 @@ public:
             return os << '0';
 
         if(base == 16) {
-            std::size_t iter = number.blocks.size() - 1;
-            for(; iter > 0 && number.blocks[iter] == 0; --iter)
-                ;
+            const auto digits = (flags & std::ios::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef";
+            Char buffer [bitness / 4 + 1] {}; std::size_t filled = 0;
 
-            os << number.blocks[iter];
+            for(std::size_t digit = (number.bitCount() + 3) / 4; digit-- > 0;)
+                buffer[filled++] = static_cast<Char>(digits[(number.blocks[digit / 8] >> (digit % 8 * 4)) & 0xf]);
 
-            const auto fill = os.fill([] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ());
-            const auto adjustment = os.setf(std::ios::right, std::ios::adjustfield);
-            for (; iter-- > 0;) {
-                os.width(8); os << number.blocks[iter];
-            }
-            os.setf(adjustment, std::ios::adjustfield);
-            os.fill(fill);
+            os << buffer;
         } else {
             /* Well, here we use a pre-calculated magic number to ratio the length of numbers in decimal or octal notation according to bitness.
              * * It is 2.95-98 for octal and 3.2 for decimal. */
-- 
2.43.0


From 86329330e2247ae833211096b74d91bbb0333571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:56 +0000
Subject: [PATCH 17/21] fix: stream output keeps the stream's showbase flag

Printing a number in hexadecimal or octal with std::showbase cleared the flag,
so the next number on the same stream lost its prefix.
---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index fd7af1c..a13a297 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1373,7 +1373,7 @@ public:
                     } else {
                         return tBase == 8 ? L"0o" : L"0x";
                     }
-                } () << std::noshowbase ;
+                } ();
             return tBase;
         } (flags & std::ios::basefield, os, flags & std::ios::showbase);
 
-- 
2.43.0


From 12bf64d07aefa8e3235de0ec1b4eb0467e28fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:29 +0000
Subject: [PATCH 18/21] fix: text constructors find the number's start
 independently of the C locale, also at compile time

---
 include/AesiMultiprecision/Aeu.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index a13a297..39acc0f 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -33,8 +33,6 @@
 
 /// @cond HIDE_INCLUDES
 #include <cstdint>
-#include <cctype>
-#include <cwctype>
 #include <iostream>
 #include <cassert>
 
@@ -187,11 +185,10 @@ public:
 
         std::size_t position = 0;
 
-        if constexpr (std::is_same_v<Char, char>) {
-            for(; position < size && !std::isalnum(data[position]); ++position) ;
-        } else {
-            for(; position < size && !std::iswalnum(static_cast<wint_t>(data[position])); ++position) ;
-        }
+        const auto isAlphanumeric = [] (Char ch) {
+            return (Char('0') <= ch && ch <= Char('9')) || (Char('a') <= ch && ch <= Char('z')) || (Char('A') <= ch && ch <= Char('Z'));
+        };
+        for(; position < size && !isAlphanumeric(data[position]); ++position) ;
 
         if(position == size)
             return;
-- 
2.43.0


From a15054389f421d68e369924174ae25519ba0f022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:29 +0000
Subject: [PATCH 19/21] fix: construct Aesi from text at compile time

---
 include/AesiMultiprecision/Aesi.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 1428666..887f51c 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -39,10 +39,10 @@ namespace {
     enum class Sign { Zero = 0, Positive = 1, Negative = -1 };
 
     template <typename Char> requires (std::is_same_v<Char, char> || std::is_same_v<Char, wchar_t>)
-    Sign traverseDashes(const Char* ptr, std::size_t);
+    gpu constexpr Sign traverseDashes(const Char* ptr, std::size_t);
 
     template <>
-    inline Sign traverseDashes(const char* ptr, std::size_t size) {
+    gpu constexpr inline Sign traverseDashes(const char* ptr, std::size_t size) {
         std::byte positive { 1 };
         for(std::size_t i = 0; i < size; ++i)
             if(ptr[i] == '-') positive ^= std::byte {1};
@@ -50,7 +50,7 @@ namespace {
     }
 
     template <>
-    inline Sign traverseDashes(const wchar_t* ptr, std::size_t size) {
+    gpu constexpr inline Sign traverseDashes(const wchar_t* ptr, std::size_t size) {
         std::byte positive { 1 };
         for(std::size_t i = 0; i < size; ++i)
             if(ptr[i] == L'-') positive ^= std::byte {1};
-- 
2.43.0


From 2e623dcc2283a2cd1e9ed23306c8a896790d9f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:03 +0000
Subject: [PATCH 20/21] fix: equality with GMP values compiles as C++20 with
 clang

---
 include/AesiMultiprecision/Aesi.h | 2 +-
 include/AesiMultiprecision/Aeu.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 887f51c..a5feff5 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -645,7 +645,7 @@ public:
          */
         template <typename T, typename U>
         constexpr friend auto operator==(const Aesi& our, const __gmp_expr<T, U>& other) noexcept -> bool {
-            const mpz_class value(other);
+            const mpz_class& value = mpz_class(other);
             return mpz_sizeinbase(value.get_mpz_t(), 2) <= bitness && our == Aesi(value);
         }
 #endif
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 39acc0f..e72aa46 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -751,7 +751,7 @@ public:
          */
         template <typename T, typename U>
         constexpr friend auto operator==(const Aeu& our, const __gmp_expr<T, U>& other) noexcept -> bool {
-            const mpz_class value(other);
+            const mpz_class& value = mpz_class(other);
             return value >= 0 && mpz_sizeinbase(value.get_mpz_t(), 2) <= bitness && our == Aeu(value);
         }
 #endif
-- 
2.43.0


From 0dc1da3fe04ec99f364fddfb556b16825f16100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:53 +0000
Subject: [PATCH 21/21] fix: GMP integration includes the vector it uses, also
 in CUDA builds

---
 include/AesiMultiprecision/Aeu.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index e72aa46..3b3e4f3 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -54,6 +54,7 @@
 
 
 #ifdef AESI_GMP_INTEGRATION
+#include <vector>
 #include <gmpxx.h>
 #endif
 
-- 
2.43.0

