From a2d2ca553419b4a5d0e7f77dd74a07c5205df98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 01/15] fix: sha256_shani keeps its saved digests on the stack

The two-block path saved them in four static slots, so concurrent (or
signal-interrupting) calls overwrote each other's digests.
---
 ssz/sha256_shani.asm | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/ssz/sha256_shani.asm b/ssz/sha256_shani.asm
index 43265de..9212102 100644
--- a/ssz/sha256_shani.asm
+++ b/ssz/sha256_shani.asm
@@ -75,9 +75,21 @@
 
 struc frame
 .xmm_save:	resdq	5
+.state_save:	resdq	4
 endstruc
+%define STATE_SAVE	rsp + frame.state_save
+%else
+;; rsp is 8 modulo 16 on entry: 72 bytes keep the four 16-byte slots aligned
+%define FRAME_SIZE	72
+%define STATE_SAVE	rsp
 %endif
 
+;; Digests of the two-block path saved between the two compressions. On the stack: hashing has to be reentrant
+%define ABEF_SAVEa	STATE_SAVE + 0*16
+%define CDGH_SAVEa	STATE_SAVE + 1*16
+%define ABEF_SAVEb	STATE_SAVE + 2*16
+%define CDGH_SAVEb	STATE_SAVE + 3*16
+
 %define MSG		xmm0
 %define STATE0		xmm1
 %define STATE1		xmm2
@@ -123,6 +135,8 @@ sha256_shani:
 	movdqa		[rsp + frame.xmm_save + 2*16], xmm8
 	movdqa		[rsp + frame.xmm_save + 3*16], xmm9
 	movdqa		[rsp + frame.xmm_save + 4*16], xmm10
+%else
+	sub		rsp, FRAME_SIZE
 %endif
 
 	movdqa		SHUF_MASK, [PSHUFFLE_BYTE_FLIP_MASK wrt rip]
@@ -477,10 +491,10 @@ sha256_shani:
         ;; Rounds with PADDING
         
 	;; Save hash values for addition after rounds
-	movdqa		[ABEF_SAVEa wrt rip], STATE0
-	movdqa		[CDGH_SAVEa wrt rip], STATE1
-	movdqa		[ABEF_SAVEb wrt rip], STATE0b
-	movdqa		[CDGH_SAVEb wrt rip], STATE1b
+	movdqa		[ABEF_SAVEa], STATE0
+	movdqa		[CDGH_SAVEa], STATE1
+	movdqa		[ABEF_SAVEb], STATE0b
+	movdqa		[CDGH_SAVEb], STATE1b
 
 	;; Rounds 0-3
 	movdqa		MSG, [SHA256PADDING + 0*16]
@@ -608,10 +622,10 @@ sha256_shani:
 		sha256rnds2	STATE0, STATE1
 		sha256rnds2	STATE0b, STATE1b
 
-	paddd		STATE0, [ABEF_SAVEa wrt rip]
-	paddd		STATE1, [CDGH_SAVEa wrt rip]
-	paddd           STATE0b, [ABEF_SAVEb wrt rip]
-	paddd		STATE1b, [CDGH_SAVEb wrt rip]
+	paddd		STATE0, [ABEF_SAVEa]
+	paddd		STATE1, [CDGH_SAVEa]
+	paddd           STATE0b, [ABEF_SAVEb]
+	paddd		STATE1b, [CDGH_SAVEb]
 
 
 	;; Write hash values back in the correct order
@@ -966,6 +980,8 @@ sha256_shani:
 	movdqa		xmm9,  [rsp + frame.xmm_save + 3*16]
 	movdqa		xmm10, [rsp + frame.xmm_save + 4*16]
 	mov		rsp, RSPSAVE
+%else
+	add		rsp, FRAME_SIZE
 %endif
 
 	ret	
@@ -1013,13 +1029,3 @@ PADDING:
         dd      0x521afaca, 0x31338431, 0x6ed41a95, 0x6d437890
         dd      0xc39c91f2, 0x9eccabbd, 0xb5c9a0e6, 0x532fb63c
         dd      0xd2c741c6, 0x7237ea3, 0xa4954b68, 0x4c191d76
-
-section .data
-
-align 64
-
-ABEF_SAVEa:     dd      0x9b05688c, 0x510e527f, 0xbb67ae85, 0x6a09e667
-CDGH_SAVEa:     dd      0x5be0cd19, 0x1f83d9ab, 0xa54ff53a, 0x3c6ef372
-ABEF_SAVEb:     dd      0x9b05688c, 0x510e527f, 0xbb67ae85, 0x6a09e667
-CDGH_SAVEb:     dd      0x5be0cd19, 0x1f83d9ab, 0xa54ff53a, 0x3c6ef372
-
-- 
2.43.0


From f7e0ae6ea9309214d201192569992b279ffb119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 02/15] fix: Hasher::implemented reads no indeterminate value
 when a CPUID leaf is missing

__get_cpuid_count leaves its outputs alone when the leaf is not
supported, so random stack bits could select SHA-NI or AVX2 kernels.
---
 ssz/hasher.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssz/hasher.cpp b/ssz/hasher.cpp
index e488227..ea4d20a 100644
--- a/ssz/hasher.cpp
+++ b/ssz/hasher.cpp
@@ -42,11 +42,13 @@ void Hasher::sha256_sse(unsigned char* output, const unsigned char* input, std::
 
 const Hasher::IMPL Hasher::implemented() {
     IMPL ret = IMPL::NONE; 
-    std::uint32_t a, b, c, d;  // NOLINT
+    // __get_cpuid leaves the registers alone when the CPU lacks the leaf: nothing is reported then
+    std::uint32_t a = 0, b = 0, c = 0, d = 0;
     __get_cpuid_count(CPUID_LEAF, 0, &a, &b, &c, &d);
     if (b & bit_SHA) ret = ret | IMPL::SHA;
     if (b & bit_AVX2) ret = ret | IMPL::AVX2;
 
+    a = b = c = d = 0;
     __get_cpuid(1, &a, &b, &c, &d);
     if (c & bit_AVX) ret = ret |  IMPL::AVX;
     if (c & bit_SSE3) ret = ret | IMPL::SSE;
-- 
2.43.0


From 171cde56a10275313bf6b6d72080b8b169809533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 03/15] fix: add the missing helpers/bytes_to_string.hpp

common/bytes.hpp includes it and every SSZ type depends on it for its
text form, but it was never committed. bytes_to_int.hpp names the headers
it uses itself.
---
 helpers/bytes_to_int.hpp    |  2 ++
 helpers/bytes_to_string.hpp | 39 +++++++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)
 create mode 100644 helpers/bytes_to_string.hpp

diff --git a/helpers/bytes_to_int.hpp b/helpers/bytes_to_int.hpp
index b3ed1d3..846b217 100644
--- a/helpers/bytes_to_int.hpp
+++ b/helpers/bytes_to_int.hpp
@@ -23,7 +23,9 @@
 #include <array>
 #include <concepts>
 #include <cstddef>
+#include <cstdint>
 #include <string>
+#include <string_view>
 
 namespace {
 struct Table {
diff --git a/helpers/bytes_to_string.hpp b/helpers/bytes_to_string.hpp
new file mode 100644
index 0000000..f11e665
--- /dev/null
+++ b/helpers/bytes_to_string.hpp
@@ -0,0 +1,39 @@
+/*  bytes_to_string.hpp
+ *
+ *  This file is part of Mammon.
+ *  mammon is a greedy and selfish ETH consensus client.
+ *
+ *  Copyright (c) 2021 - Reimundo Heluani (potuz) potuz@potuz.net
+ *
+ *  This program is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  This program is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with this program.  If not, see <http://www.gnu.org/licenses/>.
+ */
+
+#pragma once
+#include <cstdint>
+#include <string>
+
+namespace helpers {
+
+// 0x followed by two lowercase hex digits per byte
+template <class Range>
+std::string bytes_to_string(const Range& bytes) {
+    constexpr char digits[] = "0123456789abcdef";
+    std::string ret{"0x"};
+    for (const std::uint8_t byte : bytes) {
+        ret.push_back(digits[byte >> 4]);
+        ret.push_back(digits[byte & 0xf]);
+    }
+    return ret;
+}
+}  // namespace helpers
-- 
2.43.0


From ba755db77557d766465be91e667939c80c402b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 04/15] fix: no hex digit lookup outside the digit table

Characters beyond ASCII indexed the 128-entry table out of range.
---
 helpers/bytes_to_int.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/helpers/bytes_to_int.hpp b/helpers/bytes_to_int.hpp
index 846b217..85b3d72 100644
--- a/helpers/bytes_to_int.hpp
+++ b/helpers/bytes_to_int.hpp
@@ -53,7 +53,10 @@ struct Table {
         tab['f'] = 15;
         tab['F'] = 15;
     }
-    constexpr long long operator[](char const idx) const { return tab[(std::size_t)idx]; }
+    constexpr long long operator[](char const idx) const {
+        auto const i = static_cast<unsigned char>(idx);
+        return i < tab.size() ? tab[i] : 0;
+    }
 } constexpr table;
 }  // namespace
 
-- 
2.43.0


From 9c3be5399ea4c0887ebcd9abee5de5d9a6ff593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 05/15] fix: bit lists and bit vectors print hex digits

The bytes were inserted into the stream as characters, which std::hex does
not affect.
---
 common/bitlist.cpp   | 2 +-
 common/bitvector.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index acc70d0..121af1e 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -82,7 +82,7 @@ std::string Bitlist::to_string() const {
     std::ios_base::fmtflags save = std::cout.flags();
     auto serial = this->serialize();
     os << "0x";
-    for (auto i = serial.cbegin(); i != serial.cend(); ++i) os << std::setfill('0') << std::setw(2) << std::hex << *i;
+    for (auto i = serial.cbegin(); i != serial.cend(); ++i) os << std::setfill('0') << std::setw(2) << std::hex << unsigned(*i);
     std::cout.flags(save);
     return os.str();
 };
diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index 276045f..be6261f 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -66,7 +66,7 @@ class Bitvector : public ssz::Container {
         auto serial = this->serialize();
         os << "0x";
         for (auto i = serial.cbegin(); i != serial.cend(); ++i)
-            os << std::setfill('0') << std::setw(2) << std::hex << *i;
+            os << std::setfill('0') << std::setw(2) << std::hex << unsigned(*i);
         std::cout.flags(save);
         return os.str();
     };
-- 
2.43.0


From 2085d93628f332438cfb72d98ddb5fca5327dc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 06/15] fix: a default-constructed Bitvector is all zero
 instead of indeterminate

---
 common/bitvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index be6261f..b24efca 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -35,7 +35,7 @@ namespace eth {
 template <unsigned N>
 class Bitvector : public ssz::Container {
    private:
-    std::array<bool, N> m_arr;
+    std::array<bool, N> m_arr{};
 
    public:
     static constexpr std::size_t ssz_size = (N + constants::BITS_PER_BYTE - 1) / constants::BITS_PER_BYTE;
-- 
2.43.0


From 308aec30e6b88e163b5b66fbecd93d735766d081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 07/15] fix: Bitvector::deserialize rejects bits set beyond its
 length

---
 common/bitvector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index b24efca..9a19e39 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -82,6 +82,8 @@ class Bitvector : public ssz::Container {
     }
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         if (std::distance(it, end) != (N + constants::BITS_PER_BYTE - 1) / constants::BITS_PER_BYTE) return false;
+        // bits beyond the length must be zero
+        if (N % constants::BITS_PER_BYTE && *std::prev(end) >> (N % constants::BITS_PER_BYTE)) return false;
         for (auto i = it; i != end; ++i)
             for (int j = 0; j < constants::BITS_PER_BYTE && constants::BITS_PER_BYTE * std::distance(it, i) + j < N;
                  ++j)
-- 
2.43.0


From 768c93b92d9fdbdc7798e37c8e4f9728840b239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 08/15] fix: Bitlist::deserialize rejects data without an end
 marker

An empty range was read before its start and a zero last byte ran a loop
of about 2^32 iterations; from_hexstring dropped the result.
---
 common/bitlist.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 121af1e..9e4d487 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -50,8 +50,11 @@ std::vector<std::uint8_t> Bitlist::serialize() const {
     return ret;
 }
 bool Bitlist::deserialize(ssz::SSZIterator it, ssz::SSZIterator end) {
+    if (it == end) return false;
     auto last = end;
     --last;
+    // the highest bit set marks the end: it cannot be missing
+    if (*last == 0) return false;
     int msb = std::countl_zero(*last);
     m_arr.clear();
 
@@ -74,7 +77,7 @@ void Bitlist::from_hexstring(const std::string& str) {
         buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
         hex.push_back(buffer);
     }
-    deserialize(hex.begin(), hex.end());
+    if (!deserialize(hex.begin(), hex.end())) throw std::invalid_argument("not the encoding of a bitlist");
 }
 
 std::string Bitlist::to_string() const {
-- 
2.43.0


From 934c3ad74eb11644b77e6e3dcedb97b72561c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 09/15] fix: deserialization rejects lists and bit lists longer
 than their limit

---
 common/bitlist.cpp    | 2 ++
 common/containers.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 9e4d487..40ab7d9 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -56,6 +56,8 @@ bool Bitlist::deserialize(ssz::SSZIterator it, ssz::SSZIterator end) {
     // the highest bit set marks the end: it cannot be missing
     if (*last == 0) return false;
     int msb = std::countl_zero(*last);
+    auto bits = constants::BITS_PER_BYTE * std::distance(it, last) + constants::BITS_PER_BYTE - 1 - msb;
+    if (limit_ && bits > limit_) return false;
     m_arr.clear();
 
     for (auto i = it; i != last; ++i)
diff --git a/common/containers.hpp b/common/containers.hpp
index e044eea..491c6ff 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -145,6 +145,7 @@ class ListFixedSizedParts : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         m_arr.clear();
         if (std::distance(it, end) % T::ssz_size) return false;
+        if (limit_ && std::distance(it, end) / T::ssz_size > limit_) return false;
 
         for (auto i = it; i != end; i += T::ssz_size) {
             T obj;
@@ -207,6 +208,7 @@ class ListVariableSizedParts : public ssz::Container {
         auto first_offset = helpers::to_integer_little_endian<std::uint32_t>(&*it);
         if (first_offset < constants::BYTES_PER_LENGTH_OFFSET) return false;
         if (std::distance(start, end) < first_offset) return false;
+        if (limit_ && first_offset / constants::BYTES_PER_LENGTH_OFFSET > limit_) return false;
         auto last_offset = first_offset;
         it += constants::BYTES_PER_LENGTH_OFFSET;
 
-- 
2.43.0


From cb03d3dd7f34c27055c0b093aa9826e5933ecb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 10/15] fix: HashTree refuses more chunks than its limit

The tree buffer is sized for the limit, so more chunks were written past
its end.
---
 ssz/hashtree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index 8fa375d..c85bb0c 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -111,6 +111,7 @@ HashTree::HashTree(const std::vector<Chunk>& chunks, std::uint64_t limit) {
         hash_tree_ = chunks;
     else {
         if (chunks.empty()) throw std::out_of_range("empty chunks is not allowed");
+        if (limit && chunks.size() > limit) throw std::out_of_range("more chunks than the limit");
         auto effective_depth = helpers::log2ceil(chunks.size());
         auto depth = (limit == 0) ? effective_depth : helpers::log2ceil(limit);
         auto cache_size = depth - effective_depth + std::bit_ceil(chunks.size()) - 1;
-- 
2.43.0


From 65e18c7e116ab7769e2869f95f0a8824e87f8a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 11/15] fix: containers of fixed-size parts reject trailing
 bytes

---
 ssz/ssz_container.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssz/ssz_container.cpp b/ssz/ssz_container.cpp
index 13207eb..9518f77 100644
--- a/ssz/ssz_container.cpp
+++ b/ssz/ssz_container.cpp
@@ -100,9 +100,9 @@ bool Container::deserialize_(SSZIterator it, SSZIterator end, const std::vector<
             it += constants::BYTES_PER_LENGTH_OFFSET;
         }
     }
-    if (last_offset)
-        if (!last_variable_part->deserialize(begin + last_offset, end)) return false;
-    return true;
+    // the last variable part extends to the end, without one nothing may be left over
+    if (last_offset) return last_variable_part->deserialize(begin + last_offset, end);
+    return it == end;
 }
 
 std::vector<Chunk> Container::hash_tree() const {
-- 
2.43.0


From f4ceed15832a528fc2fcce473a08b850a2af403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 12/15] fix: byte order of the minimal preset's
 GENESIS_FORK_VERSION

Bytes built from an integer are little endian; the specified version is
the byte string 00 00 00 01.
---
 config/minimal.hpp.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/minimal.hpp.in b/config/minimal.hpp.in
index 613fcdd..32abd76 100644
--- a/config/minimal.hpp.in
+++ b/config/minimal.hpp.in
@@ -30,7 +30,7 @@ namespace constants {
 
 constexpr std::uint64_t MIN_GENESIS_ACTIVE_VALIDATOR_COUNT = 64;
 constexpr std::uint64_t MIN_GENESIS_TIME = 1578009600;
-constexpr const eth::Version GENESIS_FORK_VERSION{0x00000001};
+constexpr const eth::Version GENESIS_FORK_VERSION{"0x00000001"};
 constexpr std::uint64_t GENESIS_DELAY = 300;
 
 // ALTAIR_FORK_VERSION: 0x01000001
-- 
2.43.0


From 4cde0b03e8b1e06903d52239136b7fdef00c7c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:58 +0000
Subject: [PATCH 13/15] fix: define the slashings before the block bodies that
 hold lists of them

Members of std::vector were instantiated for incomplete element types,
which is ill-formed (clang rejects it in C++20).
---
 beacon-chain/beacon_block.hpp | 111 +++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 57 deletions(-)

diff --git a/beacon-chain/beacon_block.hpp b/beacon-chain/beacon_block.hpp
index bdc4d32..c9e3de2 100644
--- a/beacon-chain/beacon_block.hpp
+++ b/beacon-chain/beacon_block.hpp
@@ -109,8 +109,60 @@ struct SignedVoluntaryExit : public ssz::Container {
     }
 };
 
-struct ProposerSlashing;
-struct AttesterSlashing;
+struct SignedBeaconBlockHeader : public ssz::Container {
+    BeaconBlockHeader message;
+    BLSSignature signature;
+
+    static constexpr std::size_t ssz_size = 208;
+    std::size_t get_ssz_size() const override { return ssz_size; }
+    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&message, &signature}); }
+    BytesVector serialize() const override { return serialize_({&message, &signature}); }
+    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
+        return deserialize_(it, end, {&message, &signature});
+    }
+
+    YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
+
+    bool decode(const YAML::Node &node) override {
+        return decode_(node, {{"message", &message}, {"signature", &signature}});
+    }
+};
+
+struct ProposerSlashing : public ssz::Container {
+    SignedBeaconBlockHeader signed_header_1, signed_header_2;
+
+    static constexpr std::size_t ssz_size = 416;
+    std::size_t get_ssz_size() const override { return ssz_size; }
+    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&signed_header_1, &signed_header_2}); }
+    BytesVector serialize() const override { return serialize_({&signed_header_1, &signed_header_2}); }
+    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
+        return deserialize_(it, end, {&signed_header_1, &signed_header_2});
+    }
+
+    YAML::Node encode() const override {
+        return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
+    }
+    bool decode(const YAML::Node &node) override {
+        return decode_(node, {{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
+    }
+};
+
+struct AttesterSlashing : public ssz::Container {
+    IndexedAttestation attestation_1, attestation_2;
+
+    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&attestation_1, &attestation_2}); }
+    BytesVector serialize() const override { return serialize_({&attestation_1, &attestation_2}); }
+    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
+        return deserialize_(it, end, {&attestation_1, &attestation_2});
+    }
+    YAML::Node encode() const override {
+        return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
+    }
+
+    bool decode(const YAML::Node &node) override {
+        return decode_(node, {{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
+    }
+};
 
 class BeaconBlockBody : public ssz::Container {
    private:
@@ -229,61 +281,6 @@ class BeaconBlock : public ssz::Container {
     }
 };
 
-struct SignedBeaconBlockHeader : public ssz::Container {
-    BeaconBlockHeader message;
-    BLSSignature signature;
-
-    static constexpr std::size_t ssz_size = 208;
-    std::size_t get_ssz_size() const override { return ssz_size; }
-    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&message, &signature}); }
-    BytesVector serialize() const override { return serialize_({&message, &signature}); }
-    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
-        return deserialize_(it, end, {&message, &signature});
-    }
-
-    YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
-
-    bool decode(const YAML::Node &node) override {
-        return decode_(node, {{"message", &message}, {"signature", &signature}});
-    }
-};
-
-struct ProposerSlashing : public ssz::Container {
-    SignedBeaconBlockHeader signed_header_1, signed_header_2;
-
-    static constexpr std::size_t ssz_size = 416;
-    std::size_t get_ssz_size() const override { return ssz_size; }
-    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&signed_header_1, &signed_header_2}); }
-    BytesVector serialize() const override { return serialize_({&signed_header_1, &signed_header_2}); }
-    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
-        return deserialize_(it, end, {&signed_header_1, &signed_header_2});
-    }
-
-    YAML::Node encode() const override {
-        return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
-    }
-    bool decode(const YAML::Node &node) override {
-        return decode_(node, {{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
-    }
-};
-
-struct AttesterSlashing : public ssz::Container {
-    IndexedAttestation attestation_1, attestation_2;
-
-    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&attestation_1, &attestation_2}); }
-    BytesVector serialize() const override { return serialize_({&attestation_1, &attestation_2}); }
-    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
-        return deserialize_(it, end, {&attestation_1, &attestation_2});
-    }
-    YAML::Node encode() const override {
-        return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
-    }
-
-    bool decode(const YAML::Node &node) override {
-        return decode_(node, {{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
-    }
-};
-
 struct SignedBeaconBlock : public ssz::Container {
     BeaconBlock message;
     BLSSignature signature;
-- 
2.43.0


From 58a7de3cb60ca5ac15b884fd288906e0fe422df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:40 +0000
Subject: [PATCH 14/15] fix: containers compare all their fields

The comparison inherited from ssz::Container is constantly true, so two
different containers without one of their own were equal: distinct
AttestationData were never a double vote, and lists and vectors of parts
never differed.
---
 beacon-chain/attestation.hpp  |  9 +++++++++
 beacon-chain/beacon_block.hpp | 13 +++++++++++++
 beacon-chain/deposits.hpp     |  8 ++++++++
 beacon-chain/eth1data.hpp     |  3 +++
 beacon-chain/validator.hpp    |  2 ++
 common/containers.hpp         | 13 +++++++++++++
 6 files changed, 48 insertions(+)

diff --git a/beacon-chain/attestation.hpp b/beacon-chain/attestation.hpp
index b31950b..2dc2b4c 100644
--- a/beacon-chain/attestation.hpp
+++ b/beacon-chain/attestation.hpp
@@ -44,6 +44,8 @@ struct AttestationData : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     bool is_slashable(const AttestationData&) const;
 
+    bool operator==(const AttestationData &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -58,6 +60,8 @@ struct IndexedAttestation : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     bool is_valid(const eth::BeaconState& state) const; 
 
+    bool operator==(const IndexedAttestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -72,6 +76,8 @@ struct PendingAttestation : public ssz::Container {
     BytesVector serialize() const override;
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
 
+    bool operator==(const PendingAttestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -85,6 +91,9 @@ struct Attestation : public ssz::Container {
     BytesVector serialize() const override;
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     
+
+    bool operator==(const Attestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
diff --git a/beacon-chain/beacon_block.hpp b/beacon-chain/beacon_block.hpp
index c9e3de2..977cb13 100644
--- a/beacon-chain/beacon_block.hpp
+++ b/beacon-chain/beacon_block.hpp
@@ -121,6 +121,8 @@ struct SignedBeaconBlockHeader : public ssz::Container {
         return deserialize_(it, end, {&message, &signature});
     }
 
+    bool operator==(const SignedBeaconBlockHeader &) const = default;
+
     YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
 
     bool decode(const YAML::Node &node) override {
@@ -139,6 +141,8 @@ struct ProposerSlashing : public ssz::Container {
         return deserialize_(it, end, {&signed_header_1, &signed_header_2});
     }
 
+    bool operator==(const ProposerSlashing &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
     }
@@ -155,6 +159,9 @@ struct AttesterSlashing : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&attestation_1, &attestation_2});
     }
+
+    bool operator==(const AttesterSlashing &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
     }
@@ -211,6 +218,8 @@ class BeaconBlockBody : public ssz::Container {
                              &attestations_, &deposits_, &voluntary_exits_});
     }
 
+    bool operator==(const BeaconBlockBody &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"randao_reveal", &randao_reveal_},
                         {"eth1_data", &eth1_data_},
@@ -264,6 +273,8 @@ class BeaconBlock : public ssz::Container {
         return deserialize_(it, end, {&slot_, &proposer_index_, &parent_root_, &state_root_, &body_});
     }
 
+    bool operator==(const BeaconBlock &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"slot", &slot_},
                         {"proposer_index", &proposer_index_},
@@ -291,6 +302,8 @@ struct SignedBeaconBlock : public ssz::Container {
         return deserialize_(it, end, {&message, &signature});
     }
 
+    bool operator==(const SignedBeaconBlock &) const = default;
+
     YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
 
     bool decode(const YAML::Node &node) override {
diff --git a/beacon-chain/deposits.hpp b/beacon-chain/deposits.hpp
index 5df397a..cbb388f 100644
--- a/beacon-chain/deposits.hpp
+++ b/beacon-chain/deposits.hpp
@@ -43,6 +43,9 @@ struct DepositMessage : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&pubkey, &withdrawal_credentials, &amount});
     }
+
+    bool operator==(const DepositMessage &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"pubkey", &pubkey}, {"withdrawal_credentials", &withdrawal_credentials}, {"amount", &amount}});
     }
@@ -71,6 +74,9 @@ struct DepositData : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&pubkey, &withdrawal_credentials, &amount, &signature});
     }
+
+    bool operator==(const DepositData &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"pubkey", &pubkey},
                         {"withdrawal_credentials", &withdrawal_credentials},
@@ -98,6 +104,8 @@ struct Deposit : public ssz::Container {
         return deserialize_(it, end, {&proof, &data});
     }
 
+    bool operator==(const Deposit &) const = default;
+
     YAML::Node encode() const override { return encode_({{"proof", &proof}, {"data", &data}}); }
 
     bool decode(const YAML::Node &node) override { return decode_(node, {{"proof", &proof}, {"data", &data}}); }
diff --git a/beacon-chain/eth1data.hpp b/beacon-chain/eth1data.hpp
index 24503ae..064eed4 100644
--- a/beacon-chain/eth1data.hpp
+++ b/beacon-chain/eth1data.hpp
@@ -38,6 +38,9 @@ struct Eth1Data : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&deposit_root, &deposit_count, &block_hash});
     }
+
+    bool operator==(const Eth1Data &) const = default;
+
     YAML::Node encode() const override {
         return encode_(
             {{"deposit_root", &deposit_root}, {"deposit_count", &deposit_count}, {"block_hash", &block_hash}});
diff --git a/beacon-chain/validator.hpp b/beacon-chain/validator.hpp
index 0b202f2..0267477 100644
--- a/beacon-chain/validator.hpp
+++ b/beacon-chain/validator.hpp
@@ -46,6 +46,8 @@ class Validator : public ssz::Container {
     bool is_eligible_for_activation_queue() const noexcept;
     bool is_slashable(const Epoch& epoch) const noexcept;
 
+    bool operator==(const Validator &) const = default;
+
     YAML::Node encode() const override; 
     bool decode(const YAML::Node &node) override;
 };
diff --git a/common/containers.hpp b/common/containers.hpp
index 491c6ff..e69815a 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -89,6 +89,8 @@ class VectorFixedSizedParts : public ssz::Container {
         return true;
     }
 
+    bool operator==(const VectorFixedSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::array<T, N>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override { return YAML::convert<std::array<T, N>>::decode(node, m_arr); }
 };
@@ -154,6 +156,9 @@ class ListFixedSizedParts : public ssz::Container {
         }
         return true;
     }
+
+    bool operator==(const ListFixedSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
 };
@@ -230,6 +235,8 @@ class ListVariableSizedParts : public ssz::Container {
         return true;
     }
 
+    bool operator==(const ListVariableSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
 };
@@ -281,6 +288,8 @@ struct ForkData : public ssz::Container {
         return deserialize_(it, end, {&current_version, &genesis_validators_root});
     }
 
+    bool operator==(const ForkData &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"current_version", &current_version}, {"genesis_validators_root", &genesis_validators_root}});
     }
@@ -303,6 +312,8 @@ struct Checkpoint : public ssz::Container {
         return deserialize_(it, end, {&epoch, &root});
     }
 
+    bool operator==(const Checkpoint &) const = default;
+
     YAML::Node encode() const override { return encode_({{"epoch", &epoch}, {"root", &root}}); }
 
     bool decode(const YAML::Node &node) override { return decode_(node, {{"epoch", &epoch}, {"root", &root}}); }
@@ -321,6 +332,8 @@ struct SigningData : public ssz::Container {
         return deserialize_(it, end, {&object_root, &domain});
     }
 
+    bool operator==(const SigningData &) const = default;
+
     YAML::Node encode() const override { return encode_({{"object_root", &object_root}, {"domain", &domain}}); }
 
     bool decode(const YAML::Node &node) override {
-- 
2.43.0


From 857218e8f9f77cd8bc4d7f92a9fc39d5d0cb83f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:33 +0000
Subject: [PATCH 15/15] fix: comparing Bytes of different sizes did not compile

---
 common/bytes.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/bytes.hpp b/common/bytes.hpp
index 182643b..c55423f 100644
--- a/common/bytes.hpp
+++ b/common/bytes.hpp
@@ -118,8 +118,10 @@ class Bytes : public ssz::Container {
 
     template <std::size_t M>
     constexpr bool operator==(Bytes<M> const &r) const {
-        if (N != M) return false;
-        return m_arr == r.to_array();
+        if constexpr (N != M)
+            return false;
+        else
+            return m_arr == r.to_array();
     }
 
     constexpr bool operator==(std::vector<std::uint8_t> const &r) const {
-- 
2.43.0

