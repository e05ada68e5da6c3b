From 0838e7fd2c2c7415f430f0435a136e7a160b1108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:33 +0000
Subject: [PATCH 01/35] fix: copying an Exception dereferenced a null pointer

---
 src/Exception.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Exception.cpp b/src/Exception.cpp
index 69d4fcb..b185bb7 100644
--- a/src/Exception.cpp
+++ b/src/Exception.cpp
@@ -42,8 +42,9 @@ char const* Exception::what() const noexcept
     return pimpl->d_message.c_str();
 }
 Exception::Exception(Exception const& e)
+    : std::exception { e }
+    , pimpl { make_unique<Impl>(*e.pimpl) }
 {
-    this->pimpl->d_message = e.pimpl->d_message;
 }
 Exception::Exception(Exception&& e)
 {
-- 
2.43.0


From bedbec21c17890e71761cde76ae5b70ea209ab75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:35 +0000
Subject: [PATCH 02/35] fix: check every field of a header map against the
 header length

---
 src/CommonSEGY.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CommonSEGY.cpp b/src/CommonSEGY.cpp
index bc8d6c4..2f6723c 100644
--- a/src/CommonSEGY.cpp
+++ b/src/CommonSEGY.cpp
@@ -81,6 +81,9 @@ void check_tr_hdr_map(CommonSEGY* com)
 									"impossible, unexpected type in "
 									"TrHdrValueType");
 			}
+			if (i.first > 240u - static_cast<uint32_t>(size))
+				throw Exception(__FILE__, __LINE__,
+					string("trace header has only 240 bytes"));
 			if (first) {
                 prev = i.first;
 				prev_size = size;
@@ -91,9 +94,6 @@ void check_tr_hdr_map(CommonSEGY* com)
 									string("overlapping type/offset in "
                                     "trace headers map: ") +
 								   	to_string(i.first));
-                if (i.first + size > 240)
-                    throw Exception(__FILE__, __LINE__,
-                        string("trace header has only 240 bytes"));
                 prev = i.first;
 				prev_size = size;
             }
-- 
2.43.0


From 2a35643efc760d83d4ec13bdabe421bf93c6c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:42 +0000
Subject: [PATCH 03/35] fix: locate trailer stanzas behind the trace data and
 before the end of file

---
 src/ISEGY.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index c30c355..16386fc 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -353,9 +353,13 @@ void ISEGY::Impl::read_trailer_stanzas()
 						   	"unable to determine end of trace data"));
         if (common.binary_header.fixed_tr_length) {
             // skip all traces
-            common.file.seekg(common.bytes_per_sample * common.samp_per_tr *
-							  common.binary_header.num_of_tr_in_file,
-							  ios_base::cur);
+            streamoff trc_size = CommonSEGY::TR_HEADER_SIZE *
+				(static_cast<streamoff>(
+					common.binary_header.max_num_add_tr_headers) + 1) +
+				static_cast<streamoff>(common.bytes_per_sample) *
+				common.samp_per_tr;
+            common.file.seekg(trc_size * static_cast<streamoff>(
+				common.binary_header.num_of_tr_in_file), ios_base::cur);
             end_of_data = common.file.tellg();
             string end_stanza = "((SEG: EndText))";
             while (1) {
@@ -373,7 +377,7 @@ void ISEGY::Impl::read_trailer_stanzas()
                 common.file.read(trc_hdr_buf, CommonSEGY::TR_HEADER_SIZE);
                 // get number of samples from main header
                 char const* ptr = trc_hdr_buf + 114;
-                uint32_t trc_samp_num = read_i16(&ptr);
+                uint32_t trc_samp_num = read_u16(&ptr);
                 if (common.binary_header.max_num_add_tr_headers) {
                     // if there are additional header(s)
                     // get number of samples from first additional header
@@ -390,8 +394,8 @@ void ISEGY::Impl::read_trailer_stanzas()
 									  ios_base::cur);
                 }
                 // skip trace samples
-                common.file.seekg(trc_samp_num * common.bytes_per_sample,
-								  ios_base::cur);
+                common.file.seekg(static_cast<streamoff>(trc_samp_num) *
+								  common.bytes_per_sample, ios_base::cur);
             }
             end_of_data = common.file.tellg();
             string end_stanza = "((SEG: EndText))";
@@ -406,7 +410,8 @@ void ISEGY::Impl::read_trailer_stanzas()
         }
     } else {
         // go to first trailer stanza
-        common.file.seekg(common.binary_header.num_of_trailer_stanza *
+        common.file.seekg(-static_cast<streamoff>(
+							common.binary_header.num_of_trailer_stanza) *
 						  CommonSEGY::TEXT_HEADER_SIZE, ios_base::end);
         end_of_data = common.file.tellg();
         for (int32_t i = common.binary_header.num_of_trailer_stanza; i; --i) {
-- 
2.43.0


From ef68c51ae4f00719dfca4e59c29dd5675eac846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:30 +0000
Subject: [PATCH 04/35] fix: default text header of revision 0 was shifted by
 the blanked revision field

The arguments of the string constructor were swapped: 12 characters were
replaced by 32 form feeds, which moved the last two lines of the header.
---
 src/OSEGYRev0.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 76739c0..708419c 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -38,7 +38,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         auto pos = txt_hdr.find(to_replace);
         // there are no revision field in text header in revision 0
         txt_hdr.replace(pos, to_replace.size(),
-					   	string(' ', to_replace.size()));
+					   	string(to_replace.size(), ' '));
         CommonSEGY::ascii_to_ebcdic(txt_hdr);
     } else if (txt_hdr.size() != CommonSEGY::TEXT_HEADER_SIZE) {
         throw Exception(__FILE__, __LINE__,
-- 
2.43.0


From 2f7e4868b16653d356428b25744a96040a011551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:30 +0000
Subject: [PATCH 05/35] fix: the last additional trace header was not written

---
 src/OSEGY.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index f17082a..4caa515 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -354,7 +354,7 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 {
     char* buf = common.hdr_buf;
 	for (decltype(common.binary_header.max_num_add_tr_headers) i = 1;
-		 i < common.binary_header.max_num_add_tr_headers; ++i) {
+		 i <= common.binary_header.max_num_add_tr_headers; ++i) {
 		std::memset(buf, 0, CommonSEGY::TR_HEADER_SIZE);
 		if (static_cast<decltype(common.tr_hdr_map.size())>(i) <
 		   	common.tr_hdr_map.size()) {
-- 
2.43.0


From 7e06a7ddda50ed28329c6e22c26cb8bc942ed68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:30 +0000
Subject: [PATCH 06/35] fix: big endian files were marked as little endian

The byte order mark read from a big endian file is 0x04030201, swapping it on
writing produced the mark of a little endian file.
---
 src/OSEGY.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 4caa515..263f3ff 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -271,7 +271,8 @@ void OSEGY::Impl::write_bin_header()
     write_IEEE_double(&ptr, common.binary_header.ext_samp_int_orig);
     write_i32(&ptr, common.binary_header.ext_samp_per_tr_orig);
     write_i32(&ptr, common.binary_header.ext_ens_fold);
-    write_i32(&ptr, common.binary_header.endianness);
+    // the mark is in file byte order already, see ISEGY::fill_bin_header
+    write<int32_t>(&ptr, common.binary_header.endianness);
     ptr += 200;
     write_u8(&ptr, common.binary_header.SEGY_rev_major_ver);
     write_u8(&ptr, common.binary_header.SEGY_rev_minor_ver);
-- 
2.43.0


From 8caf92b9c29c2e293c55747fb6b6ef0be8963290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:15 +0000
Subject: [PATCH 07/35] fix: floating point trace header fields could not be
 written

They hold a double, which was requested as an integer: std::bad_variant_access.
The same happened for integer fields given as a double, like the sample
interval, which the writers accept for the binary header.
---
 src/OSEGY.cpp | 59 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 263f3ff..eebcb6c 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -287,6 +287,13 @@ void OSEGY::Impl::write_bin_header()
     common.file.write(buf, CommonSEGY::BIN_HEADER_SIZE);
 }
 
+// the value of a trace header field or zero if the trace does not have it
+template <typename T>
+static T header_value(optional<Trace::Header::Value> const& v)
+{
+    return v ? std::visit([](auto x) { return static_cast<T>(x); }, *v) : 0;
+}
+
 void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
 {
     std::memset(common.hdr_buf, 0, CommonSEGY::TR_HEADER_SIZE);
@@ -296,55 +303,55 @@ void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
 		switch (p.second.second) {
 			case Trace::Header::ValueType::int8_t:
 				tmp = hdr.get(p.second.first);
-				write_i8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i8(&pos, header_value<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::uint8_t:
 				tmp = hdr.get(p.second.first);
-				write_u8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u8(&pos, header_value<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::int16_t:
 				tmp = hdr.get(p.second.first);
-				write_i16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i16(&pos, header_value<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::uint16_t:
 				tmp = hdr.get(p.second.first);
-				write_u16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u16(&pos, header_value<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::int24_t:
 				tmp = hdr.get(p.second.first);
-				write_i24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i24(&pos, header_value<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::uint24_t:
 				tmp = hdr.get(p.second.first);
-				write_u24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u24(&pos, header_value<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::int32_t:
 				tmp = hdr.get(p.second.first);
-				write_i32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i32(&pos, header_value<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::uint32_t:
 				tmp = hdr.get(p.second.first);
-				write_u32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u32(&pos, header_value<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::int64_t:
 				tmp = hdr.get(p.second.first);
-				write_i64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i64(&pos, header_value<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::uint64_t:
 				tmp = hdr.get(p.second.first);
-				write_u64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u64(&pos, header_value<int64_t>(tmp));
 				break;
 			case Trace::Header::ValueType::ibm:
 				tmp = hdr.get(p.second.first);
-				write_ibm_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_ibm_float(&pos, header_value<double>(tmp));
 				break;
 			case Trace::Header::ValueType::ieee_single:
 				tmp = hdr.get(p.second.first);
-				write_IEEE_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_IEEE_float(&pos, header_value<double>(tmp));
 				break;
 			case Trace::Header::ValueType::ieee_double:
 				tmp = hdr.get(p.second.first);
-				write_IEEE_double(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_IEEE_double(&pos, header_value<double>(tmp));
 				break;
 		}
 	}
@@ -365,55 +372,55 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 				switch (p.second.second) {
 					case Trace::Header::ValueType::int8_t:
 						tmp = hdr.get(p.second.first);
-						write_i8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i8(&pos, header_value<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::uint8_t:
 						tmp = hdr.get(p.second.first);
-						write_u8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u8(&pos, header_value<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::int16_t:
 						tmp = hdr.get(p.second.first);
-						write_i16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i16(&pos, header_value<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::uint16_t:
 						tmp = hdr.get(p.second.first);
-						write_u16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u16(&pos, header_value<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::int24_t:
 						tmp = hdr.get(p.second.first);
-						write_i24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i24(&pos, header_value<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::uint24_t:
 						tmp = hdr.get(p.second.first);
-						write_u24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u24(&pos, header_value<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::int32_t:
 						tmp = hdr.get(p.second.first);
-						write_i32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i32(&pos, header_value<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::uint32_t:
 						tmp = hdr.get(p.second.first);
-						write_u32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u32(&pos, header_value<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::int64_t:
 						tmp = hdr.get(p.second.first);
-						write_i64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i64(&pos, header_value<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::uint64_t:
 						tmp = hdr.get(p.second.first);
-						write_u64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u64(&pos, header_value<int64_t>(tmp));
 						break;
 					case Trace::Header::ValueType::ibm:
 						tmp = hdr.get(p.second.first);
-						write_ibm_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_ibm_float(&pos, header_value<double>(tmp));
 						break;
 					case Trace::Header::ValueType::ieee_single:
 						tmp = hdr.get(p.second.first);
-						write_IEEE_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_IEEE_float(&pos, header_value<double>(tmp));
 						break;
 					case Trace::Header::ValueType::ieee_double:
 						tmp = hdr.get(p.second.first);
-						write_IEEE_double(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_IEEE_double(&pos, header_value<double>(tmp));
 						break;
 				}
 			}
-- 
2.43.0


From 6184832858870e5427d6ee546a535dd8644c4b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:15 +0000
Subject: [PATCH 08/35] fix: negative samples were converted to unsigned
 integers on writing

That conversion of a double is undefined.
---
 src/OSEGY.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index eebcb6c..cf83ea1 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -43,15 +43,15 @@ public:
 
 private:
     function<void(char**, uint8_t)> write_u8;
-    function<void(char**, uint8_t)> write_i8;
+    function<void(char**, int8_t)> write_i8;
     function<void(char**, uint16_t)> write_u16;
-    function<void(char**, uint16_t)> write_i16;
+    function<void(char**, int16_t)> write_i16;
     function<void(char**, uint32_t)> write_u24;
-    function<void(char**, uint32_t)> write_i24;
+    function<void(char**, int32_t)> write_i24;
     function<void(char**, uint32_t)> write_u32;
-    function<void(char**, uint32_t)> write_i32;
+    function<void(char**, int32_t)> write_i32;
     function<void(char**, uint64_t)> write_u64;
-    function<void(char**, uint64_t)> write_i64;
+    function<void(char**, int64_t)> write_i64;
     function<void(char**, double)> write_sample;
     function<void(char**, double)> write_ibm_float;
     function<void(char**, float)> write_IEEE_float;
-- 
2.43.0


From b58cf1a9774ee325d1fbc0fa83088ca8e78cd0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:15 +0000
Subject: [PATCH 09/35] fix: writing a trace with a wrong number of samples

More samples than expected overflowed the buffer, less of them were completed
with the samples of another trace.
---
 src/OSEGY.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index cf83ea1..da2a803 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -451,6 +451,9 @@ void OSEGY::Impl::write_trace_samples_var(Trace const& t)
 {
     Trace::Header::Value v = *t.header_const().get("SAMP_NUM");
     int64_t samp_num = get<int64_t>(v);
+    if (samp_num != static_cast<int64_t>(t.samples().size()))
+        throw Exception(__FILE__, __LINE__,
+						"the number of samples does not match SAMP_NUM");
     uint64_t bytes_num = samp_num * common.bytes_per_sample;
     if (bytes_num != common.samp_buf.size())
         common.samp_buf.resize(bytes_num);
@@ -461,6 +464,9 @@ void OSEGY::Impl::write_trace_samples_fix(Trace const& t)
 {
     char* buf = common.samp_buf.data();
     vector<double> const& samples = t.samples();
+    if (samples.size() * common.bytes_per_sample != common.samp_buf.size())
+        throw Exception(__FILE__, __LINE__,
+						"the number of samples does not match trace length");
     for (auto samp : samples)
         write_sample(&buf, samp);
     common.file.write(common.samp_buf.data(), common.samp_buf.size());
-- 
2.43.0


From 62c451338cdb73862850814b4e1913fefd1134f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:15 +0000
Subject: [PATCH 10/35] fix: IBM float values were lost at powers of 16 and out
 of the range

The exponent was computed with rounded logarithms: 16^-39 was written as zero.
The exponent of too big or too small values was wrapped, the logarithm of zero
was converted to an integer.
---
 src/OSEGY.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index da2a803..36a7baf 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -147,11 +147,17 @@ void OSEGY::Impl::assign_raw_writers()
     write_ibm_float = [this](char** buf, double val) {
         uint32_t sign = val < 0 ? 1 : 0;
         double abs_val = abs(val);
-        uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 +
-											 1 + 64) & 0x7f;
-        uint32_t fraction = abs_val / pow(16, static_cast<int>(exp) - 64) *
-		   	pow(2, 24);
-        uint32_t result = sign << 31 | exp << 24 | (fraction & 0x00ffffff);
+        uint32_t result = sign << 31;
+        if (abs_val >= pow(16, 63)) {
+            result |= 0x7fffffff;
+        } else if (abs_val >= pow(16, -65)) {
+            int exp2;
+            frexp(abs_val, &exp2);
+            // 16^(exp - 65) <= abs_val < 16^(exp - 64)
+            int exp = (exp2 + 3 + 256) / 4;
+            uint32_t fraction = ldexp(abs_val, 24 - 4 * (exp - 64));
+            result |= static_cast<uint32_t>(exp) << 24 | fraction;
+        }
         write_u32(buf, result);
     };
 }
-- 
2.43.0


From 26d6436eee7c515f734b795967983ae15527337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:15 +0000
Subject: [PATCH 11/35] fix: number of text headers and trailer stanzas in the
 binary header

They were set after the binary header had been written. Trailer stanzas were
not written at all if the number was not in the binary header already.
---
 src/OSEGY.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 36a7baf..d0809e8 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -243,6 +243,8 @@ void OSEGY::Impl::write_bin_header()
 {
     char buf[CommonSEGY::BIN_HEADER_SIZE] = { 0 };
     char* ptr = buf;
+    common.binary_header.ext_text_headers_num = common.text_headers.size() - 1;
+    common.binary_header.num_of_trailer_stanza = common.trailer_stanzas.size();
     write_i32(&ptr, common.binary_header.job_id);
     write_i32(&ptr, common.binary_header.line_num);
     write_i32(&ptr, common.binary_header.reel_num);
@@ -438,7 +440,6 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 void OSEGY::Impl::write_ext_text_headers()
 {
     int hdrs_num = common.text_headers.size() - 1;
-    common.binary_header.ext_text_headers_num = hdrs_num;
     for (int i = 1; i < hdrs_num + 1; ++i)
         common.file.write(common.text_headers[i].c_str(),
 						  CommonSEGY::TEXT_HEADER_SIZE);
@@ -447,7 +448,6 @@ void OSEGY::Impl::write_ext_text_headers()
 void OSEGY::Impl::write_trailer_stanzas()
 {
     int stanzas_num = common.trailer_stanzas.size();
-    common.binary_header.num_of_trailer_stanza = stanzas_num;
     for (int i = 0; i < stanzas_num; ++i)
         common.file.write(common.trailer_stanzas[i].c_str(),
 						  CommonSEGY::TEXT_HEADER_SIZE);
-- 
2.43.0


From e8c2433cc9f5bca9df9382c01001b445e96a1baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:15 +0000
Subject: [PATCH 12/35] fix: files of revision 1 and 2 were written as revision
 0

A reader takes them for files with traces of the same length.
---
 src/OSEGYRev1.cpp | 3 +++
 src/OSEGYRev2.cpp | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index f80741e..f9364ad 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -49,6 +49,8 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.common().file.write(txt_hdrs[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    sgy.common().binary_header.SEGY_rev_major_ver = 1;
+    sgy.common().binary_header.SEGY_rev_minor_ver = 0;
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
@@ -57,6 +59,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
+	zero.SEGY_rev_major_ver = 1;
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 610931f..c438078 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -56,6 +56,10 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.common().file.write(sgy.common().text_headers[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    if (sgy.common().binary_header.SEGY_rev_major_ver != 2) {
+        sgy.common().binary_header.SEGY_rev_major_ver = 2;
+        sgy.common().binary_header.SEGY_rev_minor_ver = 0;
+    }
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
@@ -64,6 +68,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
+	zero.SEGY_rev_major_ver = 2;
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
-- 
2.43.0


From 3454cac662bc9949bc934b547a668dd346ff58d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:15 +0000
Subject: [PATCH 13/35] fix: reading of absent or out of range sample number
 and interval

An empty optional was dereferenced, sample intervals out of the range of
int16_t were converted to it. Revision 2 did not accept a sample interval
given as a double, unlike revision 0 and 1.
---
 src/OSEGY.cpp     |  3 ++-
 src/OSEGYRev0.cpp |  9 +++++----
 src/OSEGYRev1.cpp |  8 ++++----
 src/OSEGYRev2.cpp | 16 +++++++++++-----
 4 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index d0809e8..7a751ed 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -455,7 +455,8 @@ void OSEGY::Impl::write_trailer_stanzas()
 
 void OSEGY::Impl::write_trace_samples_var(Trace const& t)
 {
-    Trace::Header::Value v = *t.header_const().get("SAMP_NUM");
+    Trace::Header::Value v =
+		t.header_const().get("SAMP_NUM").value();
     int64_t samp_num = get<int64_t>(v);
     if (samp_num != static_cast<int64_t>(t.samples().size()))
         throw Exception(__FILE__, __LINE__,
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 708419c..4fb6d62 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -68,21 +68,22 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         write_trace = [this](Trace& tr) {
             if (sgy.common().file.tellg() == first_trace_pos) {
                 //throw exception if trace header does not has a samples number
-                Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+                Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
                 int64_t samp_num = get<int64_t>(v);
-                if (samp_num > INT16_MAX)
+                if (samp_num < 0 || samp_num > INT16_MAX)
                     throw Exception(__FILE__, __LINE__,
 									"the number of samples is too much for "
 									"revision 0");
                 else
                     sgy.common().binary_header.samp_per_tr = samp_num;
-                v = *tr.header().get("SAMP_INT");
+                v = tr.header().get("SAMP_INT").value();
                 double samp_int;
                 if (holds_alternative<int64_t>(v))
                     samp_int = get<int64_t>(v);
                 else
                     samp_int = get<double>(v);
-                if (samp_int > INT16_MAX || !static_cast<int16_t>(samp_int))
+                if (!(samp_int >= INT16_MIN && samp_int <= INT16_MAX) ||
+                    !static_cast<int16_t>(samp_int))
                     throw Exception(__FILE__, __LINE__,
 									"the sample interval can not be "
 									"written to rev0");
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index f9364ad..44e2806 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -83,21 +83,21 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 			if (sgy.common().file.tellg() == first_trace_pos) {
 				// throw exception if trace header does not has
 				// a samples number
-				Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+				Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
 				int64_t samp_num = get<int64_t>(v);
-				if (samp_num > INT16_MAX)
+				if (samp_num < 0 || samp_num > INT16_MAX)
 					throw Exception(__FILE__, __LINE__,
 									"the number of samples is too much "
 									"for revision 1");
 				else
 					sgy.common().binary_header.samp_per_tr = samp_num;
-				v = *tr.header().get("SAMP_INT");
+				v = tr.header().get("SAMP_INT").value();
 				double samp_int;
 				if (holds_alternative<int64_t>(v))
 					samp_int = get<int64_t>(v);
 				else
 					samp_int = get<double>(v);
-				if (samp_int > INT16_MAX ||
+				if (!(samp_int >= INT16_MIN && samp_int <= INT16_MAX) ||
 					!static_cast<int16_t>(samp_int))
 					throw Exception(__FILE__, __LINE__,
 									"the sample interval can not be "
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index c438078..08fe483 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -7,6 +7,7 @@
 
 using std::function;
 using std::get;
+using std::holds_alternative;
 using std::ios_base;
 using std::make_unique;
 using std::map;
@@ -136,17 +137,22 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
 {
     if (sgy.common().file.tellg() == first_trace_pos) {
         // throw exception if trace header does not has a samples number
-        Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+        Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
         int64_t samp_num = get<int64_t>(v);
-        if (samp_num > INT16_MAX)
+        if (samp_num < 0 || samp_num > INT16_MAX)
             throw Exception(__FILE__, __LINE__,
 							"the number of samples is too much for "
 							"revision 0");
         else
             sgy.common().binary_header.samp_per_tr = samp_num;
-        v = *tr.header().get("SAMP_INT");
-        double samp_int = get<int64_t>(v);
-        if (samp_int > INT16_MAX || !static_cast<int16_t>(samp_int))
+        v = tr.header().get("SAMP_INT").value();
+        double samp_int;
+        if (holds_alternative<int64_t>(v))
+            samp_int = get<int64_t>(v);
+        else
+            samp_int = get<double>(v);
+        if (!(samp_int >= INT16_MIN && samp_int <= INT16_MAX) ||
+            !static_cast<int16_t>(samp_int))
             throw Exception(__FILE__, __LINE__,
 						   	"the sample interval can not be written to rev0");
         else
-- 
2.43.0


From e6c09002c03148534b92f152cd08db53e01a1916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:39 +0000
Subject: [PATCH 14/35] fix: extended number of samples was ignored on writing

A reader uses it instead of the 16 bit one, if it is not zero.
---
 include/OSEGY.hpp | 1 +
 src/OSEGY.cpp     | 7 +++++++
 src/OSEGYRev0.cpp | 3 +--
 src/OSEGYRev1.cpp | 3 +--
 src/OSEGYRev2.cpp | 3 +--
 5 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/OSEGY.hpp b/include/OSEGY.hpp
index b2b3413..94030cc 100644
--- a/include/OSEGY.hpp
+++ b/include/OSEGY.hpp
@@ -56,6 +56,7 @@ protected:
     void assign_raw_writers();
     void assign_sample_writer();
     void assign_bytes_per_sample();
+    std::size_t samples_per_trace();
     void write_bin_header();
     void write_ext_text_headers();
     void write_trailer_stanzas();
diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 7a751ed..5ea6dfa 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -491,6 +491,13 @@ CommonSEGY& OSEGY::common() { return pimpl->common; }
 void OSEGY::assign_raw_writers() { pimpl->assign_raw_writers(); }
 void OSEGY::assign_sample_writer() { pimpl->assign_sample_writer(); }
 void OSEGY::assign_bytes_per_sample() { pimpl->assign_bytes_per_sample(); }
+std::size_t OSEGY::samples_per_trace()
+{
+    // the same choice as on reading
+    CommonSEGY::BinaryHeader const& bh = pimpl->common.binary_header;
+    return bh.ext_samp_per_tr ? bh.ext_samp_per_tr
+							  : static_cast<uint16_t>(bh.samp_per_tr);
+}
 void OSEGY::write_bin_header() { pimpl->write_bin_header(); }
 void OSEGY::write_ext_text_headers() { pimpl->write_ext_text_headers(); }
 void OSEGY::write_trailer_stanzas() { pimpl->write_trailer_stanzas(); }
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 4fb6d62..0564117 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -57,8 +57,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
 	zero.format_code = 1;
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
-        sgy.common().samp_buf.resize(static_cast<uint16_t>(
-				sgy.common().binary_header.samp_per_tr) *
+        sgy.common().samp_buf.resize(sgy.samples_per_trace() *
 			sgy.common().bytes_per_sample);
         write_trace = [this](Trace& tr) {
             sgy.write_trace_header(tr.header());
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 44e2806..69059d1 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -63,8 +63,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
-            sgy.common().samp_buf.resize(static_cast<uint16_t>(
-					sgy.common().binary_header.samp_per_tr) *
+            sgy.common().samp_buf.resize(sgy.samples_per_trace() *
 			   	sgy.common().bytes_per_sample);
             write_trace = [this](Trace& tr) {
                 sgy.write_trace_header(tr.header());
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 08fe483..e5e712d 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -73,8 +73,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
-            sgy.common().samp_buf.resize(static_cast<uint16_t>(
-					sgy.common().binary_header.samp_per_tr) *
+            sgy.common().samp_buf.resize(sgy.samples_per_trace() *
 			   	sgy.common().bytes_per_sample);
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
-- 
2.43.0


From c5036cb733fb316f7acf4c44f4933a0884a008c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:11 +0000
Subject: [PATCH 15/35] fix: integer overflow in the size of traces longer than
 2 GB

---
 src/ISEGY.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 16386fc..b2ab687 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -115,7 +115,7 @@ void ISEGY::Impl::initialization(bool override_bin_hdr)
     common.file.seekg(first_trace_pos);
     curr_pos = first_trace_pos;
     common.samp_buf.resize(static_cast<decltype(common.samp_buf.size())>(
-        common.samp_per_tr * common.bytes_per_sample));
+        common.samp_per_tr) * common.bytes_per_sample);
 	if (common.binary_header.fixed_tr_length ||
 		common.binary_header.SEGY_rev_major_ver == 0)
 		read_trc_smpls =
@@ -516,8 +516,8 @@ Trace::Header ISEGY::read_header()
     unordered_map<string, Trace::Header::Value> hdr = pimpl->read_trc_header();
     if (pimpl->common.binary_header.fixed_tr_length ||
 	   	pimpl->common.binary_header.SEGY_rev_major_ver == 0) {
-        pimpl->file_skip_bytes(pimpl->common.samp_per_tr *
-							   pimpl->common.bytes_per_sample);
+        pimpl->file_skip_bytes(static_cast<streamoff>(
+				pimpl->common.samp_per_tr) * pimpl->common.bytes_per_sample);
     } else {
         Trace::Header::Value v = hdr["SAMP_NUM"];
         uint64_t samp_num = get<int64_t>(v);
-- 
2.43.0


From 8ba992ba718ffe2195b8a9b8a843ec3e1f1caa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:00 +0000
Subject: [PATCH 16/35] fix: an empty binary header was not recognised by the
 padding of its fields

The padding bytes of the structure are indeterminate, memcmp compared them too.
---
 include/CommonSEGY.hpp | 1 +
 src/OSEGYRev0.cpp      | 4 +---
 src/OSEGYRev1.cpp      | 4 +---
 src/OSEGYRev2.cpp      | 4 +---
 4 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/CommonSEGY.hpp b/include/CommonSEGY.hpp
index 587220f..a9001b9 100644
--- a/include/CommonSEGY.hpp
+++ b/include/CommonSEGY.hpp
@@ -138,6 +138,7 @@ public:
             NUM_OF_TRAILER_STANZA
         };
         static char const* name_as_string(Name n);
+        bool operator==(BinaryHeader const&) const = default;
     } binary_header;
     ///
     /// \brief Transform text header from ebcdic to ascii.
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 0564117..c12227f 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -10,7 +10,6 @@ using std::get;
 using std::holds_alternative;
 using std::make_unique;
 using std::map;
-using std::memcmp;
 using std::move;
 using std::pair;
 using std::streampos;
@@ -55,8 +54,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 1;
-    if (memcmp(&sgy.common().binary_header, &zero,
-			   sizeof(CommonSEGY::BinaryHeader))) {
+    if (sgy.common().binary_header != zero) {
         sgy.common().samp_buf.resize(sgy.samples_per_trace() *
 			sgy.common().bytes_per_sample);
         write_trace = [this](Trace& tr) {
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 69059d1..26b3e31 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -10,7 +10,6 @@ using std::get;
 using std::holds_alternative;
 using std::make_unique;
 using std::map;
-using std::memcmp;
 using std::move;
 using std::pair;
 using std::streampos;
@@ -60,8 +59,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
 	zero.SEGY_rev_major_ver = 1;
-    if (memcmp(&sgy.common().binary_header, &zero,
-			   sizeof(CommonSEGY::BinaryHeader))) {
+    if (sgy.common().binary_header != zero) {
         if (sgy.common().binary_header.fixed_tr_length) {
             sgy.common().samp_buf.resize(sgy.samples_per_trace() *
 			   	sgy.common().bytes_per_sample);
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index e5e712d..88b1acc 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -11,7 +11,6 @@ using std::holds_alternative;
 using std::ios_base;
 using std::make_unique;
 using std::map;
-using std::memcmp;
 using std::move;
 using std::optional;
 using std::pair;
@@ -70,8 +69,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
 	zero.SEGY_rev_major_ver = 2;
-    if (memcmp(&sgy.common().binary_header, &zero,
-			   sizeof(CommonSEGY::BinaryHeader))) {
+    if (sgy.common().binary_header != zero) {
         if (sgy.common().binary_header.fixed_tr_length) {
             sgy.common().samp_buf.resize(sgy.samples_per_trace() *
 			   	sgy.common().bytes_per_sample);
-- 
2.43.0


From 3f6235f665180ddbd3da571c357819c23f058cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:37 +0000
Subject: [PATCH 17/35] fix: sorting a SEG-Y file without traces dereferenced
 the end of the map

---
 src/ISEGYSorted1D.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ISEGYSorted1D.cpp b/src/ISEGYSorted1D.cpp
index eca66b6..93571dd 100644
--- a/src/ISEGYSorted1D.cpp
+++ b/src/ISEGYSorted1D.cpp
@@ -34,9 +34,10 @@ ISEGYSorted1D::Impl::Impl(ISEGYSorted1D &s, string hdr_name) : sgy{s} {
     }
     map_cur = trc_map.begin();
     map_end = trc_map.end();
-    vec_cur = map_cur->second.begin();
-    vec_end = map_cur->second.end();
-    Trace::Header::Value key = map_cur->first;
+    if (map_cur != map_end) {
+        vec_cur = map_cur->second.begin();
+        vec_end = map_cur->second.end();
+    }
 }
 
 bool ISEGYSorted1D::has_trace() { return pimpl->map_cur != pimpl->map_end; }
-- 
2.43.0


From 1365ec853dde8883296fa0eea2b3b187cd22b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:37 +0000
Subject: [PATCH 18/35] fix: fields of the SEG-D rev 3 general header 2 were
 read from wrong places

---
 src/ISEGD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index faf14b3..38d88d1 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -386,9 +386,10 @@ void ISEGD::Impl::read_gen_hdr2_and_3(char const* buf)
     gh2.extended_skew_blocks = read_u16(&buf);
     buf += 2;
     gh2.gen_trailer_num_of_blocks = read_u32(&buf);
+    gh2.ext_record_len = read_u32(&buf);
     gh2.record_set_number = read_u16(&buf);
     gh2.ext_num_add_blks_in_gen_hdr = read_u16(&buf);
-    gh2.dominant_sampling_int = read_u16(&buf);
+    gh2.dominant_sampling_int = read_u24(&buf);
     gh2.external_hdr_blocks = read_u24(&buf);
     gh2.gen_hdr_block_num = *++buf;
     fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
-- 
2.43.0


From d3140114027ca82238cc4931cc37606e96945397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:51 +0000
Subject: [PATCH 19/35] fix: extended number of SEG-D channel sets was not used
 on reading

---
 src/ISEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 38d88d1..b03adcf 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -169,7 +169,7 @@ void ISEGD::Impl::read_headers_before_traces()
     assign_sample_reading();
     // read header for each scan type
     uint16_t ch_sets_per_scan_type_num =
-	   	common.general_header.channel_sets_per_scan_type ==	1665 ?
+	   	common.general_header.channel_sets_per_scan_type ==	165 ?
 	   	common.general_header2.ext_ch_sets_per_scan_type :
 	   	common.general_header.channel_sets_per_scan_type;
     if (!common.general_header.add_gen_hdr_blocks ||
-- 
2.43.0


From b7c3d46ec1bfd5056adfec88ce2a1a28ac2ff4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:51 +0000
Subject: [PATCH 20/35] fix: SEG-D extended header flags above 7 were sign
 extended

---
 src/ISEGD.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index b03adcf..6fb33d4 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1106,7 +1106,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         second_notch_filter = from_bcd<int>(&buf, false, 4);
         third_notch_filter = from_bcd<int>(&buf, false, 4);
         ext_ch_set_num = read_u16(&buf);
-        ext_hdr_flag = *buf >> 4;
+        ext_hdr_flag = static_cast<uint8_t>(*buf) >> 4;
         trc_hdr_ext = *buf & 0x0f;
         ++buf;
         vert_stack = read_u8(&buf);
@@ -1124,7 +1124,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         samp_int = read_u24(&buf);
         array_forming = read_u8(&buf);
         trc_hdr_ext = read_u8(&buf);
-        ext_hdr_flag = *buf >> 4;
+        ext_hdr_flag = static_cast<uint8_t>(*buf) >> 4;
         channel_gain = *buf & 0x0f;
         ++buf;
         vert_stack = read_u8(&buf);
-- 
2.43.0


From bb9b3e7c183eded4be91587e7b20d1b75a5d7966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:51 +0000
Subject: [PATCH 21/35] fix: SEG-D filter delay was reported modulo 256

---
 src/CommonSEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 59202a7..83c2091 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -271,7 +271,7 @@ optional<uint8_t> CommonSEGD::ChannelSetHeader::physical_unit()
 
 optional<uint32_t> CommonSEGD::ChannelSetHeader::filter_delay()
 {
-   	return segd_rev_more_than_2 ? optional<uint8_t>(p_filter_delay) : nullopt;
+   	return segd_rev_more_than_2 ? optional<uint32_t>(p_filter_delay) : nullopt;
 }
 
 optional<array<char, 27>> CommonSEGD::ChannelSetHeader::description()
-- 
2.43.0


From f93201e0b93069478a6f55500c4568ff88a30eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:51 +0000
Subject: [PATCH 22/35] fix: SEG-D channel sets before rev 3 reported fields
 they do not have

---
 src/ISEGD.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 6fb33d4..9417fc0 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1143,6 +1143,16 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         filter_delay = read_u32(&buf);
         memcpy(description.data(), buf, description.size());
     }
+    if (!common.general_header.add_gen_hdr_blocks ||
+	   	common.general_header2.segd_rev_major < 3)
+        return CommonSEGD::ChannelSetHeader(
+            scan_type_number, channel_set_number, channel_type,
+            channel_set_start_time, channel_set_end_time, descale_multiplier,
+            number_of_channels, subscans_per_ch_set, channel_gain,
+            alias_filter_freq, alias_filter_slope, low_cut_filter_freq,
+            low_cut_filter_slope, first_notch_filter, second_notch_filter,
+            third_notch_filter, ext_ch_set_num, ext_hdr_flag, trc_hdr_ext,
+            vert_stack, streamer_no, array_forming);
     return CommonSEGD::ChannelSetHeader(
         scan_type_number, channel_set_number, channel_type,
         channel_set_start_time, channel_set_end_time, descale_multiplier,
-- 
2.43.0


From 992722e1962762f0fea062d6faf22ddca9950bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:30 +0000
Subject: [PATCH 23/35] fix: two byte offsets of SEG-D rev 3 source blocks were
 read as one byte

---
 src/ISEGD.cpp | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 9417fc0..d6bc335 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -582,10 +582,10 @@ ISEGD::Impl::read_vibrator_hdr(char const* buf)
     ghV.reshoot_idx = read_u8(&buf);
     ghV.group_idx = read_u8(&buf);
     ghV.depth_idx = read_u8(&buf);
-    ghV.offset_crossline = read_u8(&buf);
-    ghV.offset_inline = read_u8(&buf);
-    ghV.size = read_u8(&buf);
-    ghV.offset_depth = read_u8(&buf);
+    ghV.offset_crossline = read_u16(&buf);
+    ghV.offset_inline = read_u16(&buf);
+    ghV.size = read_u16(&buf);
+    ghV.offset_depth = read_u16(&buf);
     ghV.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderVib>(move(ghV));
 }
@@ -608,10 +608,10 @@ ISEGD::Impl::read_explosive_hdr(char const* buf)
     ghE.reshoot_idx = read_u8(&buf);
     ghE.group_idx = read_u8(&buf);
     ghE.depth_idx = read_u8(&buf);
-    ghE.offset_crossline = read_u8(&buf);
-    ghE.offset_inline = read_u8(&buf);
-    ghE.size = read_u8(&buf);
-    ghE.offset_depth = read_u8(&buf);
+    ghE.offset_crossline = read_u16(&buf);
+    ghE.offset_inline = read_u16(&buf);
+    ghE.size = read_u16(&buf);
+    ghE.offset_depth = read_u16(&buf);
     ghE.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderExp>(move(ghE));
 }
@@ -633,10 +633,10 @@ ISEGD::Impl::read_airgun_hdr(char const* buf)
     ghA.reshoot_idx = read_u8(&buf);
     ghA.group_idx = read_u8(&buf);
     ghA.depth_idx = read_u8(&buf);
-    ghA.offset_crossline = read_u8(&buf);
-    ghA.offset_inline = read_u8(&buf);
-    ghA.size = read_u8(&buf);
-    ghA.offset_depth = read_u8(&buf);
+    ghA.offset_crossline = read_u16(&buf);
+    ghA.offset_inline = read_u16(&buf);
+    ghA.size = read_u16(&buf);
+    ghA.offset_depth = read_u16(&buf);
     ghA.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderAir>(move(ghA));
 }
@@ -658,10 +658,10 @@ ISEGD::Impl::read_watergun_hdr(char const* buf)
     ghA.reshoot_idx = read_u8(&buf);
     ghA.group_idx = read_u8(&buf);
     ghA.depth_idx = read_u8(&buf);
-    ghA.offset_crossline = read_u8(&buf);
-    ghA.offset_inline = read_u8(&buf);
-    ghA.size = read_u8(&buf);
-    ghA.offset_depth = read_u8(&buf);
+    ghA.offset_crossline = read_u16(&buf);
+    ghA.offset_inline = read_u16(&buf);
+    ghA.size = read_u16(&buf);
+    ghA.offset_depth = read_u16(&buf);
     ghA.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderWat>(move(ghA));
 }
@@ -683,10 +683,10 @@ ISEGD::Impl::read_electromagnetic_hdr(char const* buf)
     ghE.reshoot_idx = read_u8(&buf);
     ghE.group_idx = read_u8(&buf);
     ghE.depth_idx = read_u8(&buf);
-    ghE.offset_crossline = read_u8(&buf);
-    ghE.offset_inline = read_u8(&buf);
-    ghE.size = read_u8(&buf);
-    ghE.offset_depth = read_u8(&buf);
+    ghE.offset_crossline = read_u16(&buf);
+    ghE.offset_inline = read_u16(&buf);
+    ghE.size = read_u16(&buf);
+    ghE.offset_depth = read_u16(&buf);
     ghE.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderEle>(move(ghE));
 }
@@ -707,10 +707,10 @@ ISEGD::Impl::read_other_source_hdr(char const* buf)
     ghO.reshoot_idx = read_u8(&buf);
     ghO.group_idx = read_u8(&buf);
     ghO.depth_idx = read_u8(&buf);
-    ghO.offset_crossline = read_u8(&buf);
-    ghO.offset_inline = read_u8(&buf);
-    ghO.size = read_u8(&buf);
-    ghO.offset_depth = read_u8(&buf);
+    ghO.offset_crossline = read_u16(&buf);
+    ghO.offset_inline = read_u16(&buf);
+    ghO.size = read_u16(&buf);
+    ghO.offset_depth = read_u16(&buf);
     ghO.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderOth>(move(ghO));
 }
-- 
2.43.0


From d340a92b9f1d71ad1210f9b5a871567571f5dc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:30 +0000
Subject: [PATCH 24/35] fix: SEG-D sensor serial number was read past the end
 of its block

---
 include/CommonSEGD.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CommonSEGD.hpp b/include/CommonSEGD.hpp
index d0c6b0b..439618c 100644
--- a/include/CommonSEGD.hpp
+++ b/include/CommonSEGD.hpp
@@ -1164,7 +1164,7 @@ public:
         uint64_t instrument_test_time;
         uint32_t sensor_sensitivity;
         uint8_t instr_test_result;
-        char serial_number[28];
+        char serial_number[18];
         uint8_t gen_hdr_block_type;
         ///
         /// \brief Constants to use with names.
-- 
2.43.0


From 80f1e32ac90d61b62e3106659380aad7d6768af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:07 +0000
Subject: [PATCH 25/35] fix: unsigned 64 bit fields of SEG-D trace header
 extensions were read from the start of the block

---
 src/ISEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index d6bc335..c2f135e 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1312,7 +1312,7 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
                     hdr[p.second.first] = read_i64(&pos);
                     break;
                 case Trace::Header::ValueType::uint64_t:
-                    hdr[p.second.first] = static_cast<int64_t>(read_u64(&buf));
+                    hdr[p.second.first] = static_cast<int64_t>(read_u64(&pos));
                     break;
                 case Trace::Header::ValueType::ibm:
                     hdr[p.second.first] = dbl_from_ibm_float(&pos);
-- 
2.43.0


From 1101d213b32da8492b70d3ec2a4c5c5576adc503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:07 +0000
Subject: [PATCH 26/35] fix: SEG-D trace header extensions without a map were
 looked up past the end of the maps

---
 src/ISEGD.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index c2f135e..96b4a2e 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1281,6 +1281,8 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
             CommonSEGD::TRACE_HEADER_EXT_SIZE);
         char const* buf = common.trc_ext_hdr_buf;
         if (common.trace_header_extension.size()) {
+            if (static_cast<size_t>(i) >= common.trace_header_extension.size())
+                continue;
             for (auto& p : common.trace_header_extension[i]) {
                 char const* pos = common.trc_ext_hdr_buf + p.first;
                 switch (p.second.second) {
-- 
2.43.0


From f52dddb38b929e33f3018f265c7b36ce6e0991a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:07 +0000
Subject: [PATCH 27/35] fix: a SEG-D trace of an unknown channel set was read
 past the end of the channel sets

---
 src/ISEGD.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 96b4a2e..93939e0 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1368,9 +1368,14 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
 											   Trace::Header::Value>& hdr)
 {
     uint32_t samp_num;
+    size_t scan_type = get<int64_t>(hdr["SCAN_TYPE_NUM"]) - 1;
+    size_t ch_set = get<int64_t>(hdr["CH_SET_NUM"]) - 1;
+    if (scan_type >= common.channel_sets.size() ||
+        ch_set >= common.channel_sets[scan_type].size())
+        throw Exception(__FILE__, __LINE__,
+                        "no channel set header for the trace");
     CommonSEGD::ChannelSetHeader curr_ch_set =
-	   	common.channel_sets[get<int64_t>(hdr["SCAN_TYPE_NUM"]) - 1]
-		[get<int64_t>(hdr["CH_SET_NUM"]) - 1];
+        common.channel_sets[scan_type][ch_set];
     if (hdr.find("SAMP_NUM") != hdr.end())
         samp_num = get<int64_t>(hdr["SAMP_NUM"]);
     else if (curr_ch_set.number_of_samples())
-- 
2.43.0


From f3da6944d22ba5c5012c5dcb7488d9cb13e054b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:07 +0000
Subject: [PATCH 28/35] fix: extended SEG-D trace number was not used

---
 src/ISEGD.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 93939e0..97906c8 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1353,8 +1353,8 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
             }
             if (common.general_header2.segd_rev_major > 2) {
                 uint32_t ext_tr_num = read_u24(&buf);
-                if (get<int64_t>(hdr["TRACE_NUMBER"]) == 16665)
-                    hdr["TRACE_NUMBER"] = ext_tr_num;
+                if (get<int64_t>(hdr["CHAN"]) == 16665)
+                    hdr["CHAN"] = ext_tr_num;
                 hdr["SAMP_NUM"] = read_u32(&buf);
                 hdr["SENSOR_MOVING"] = read_u8(&buf);
                 ++buf;
-- 
2.43.0


From a7716e1d0b31c91183c5ead46f95256eeca37aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:07 +0000
Subject: [PATCH 29/35] fix: integer overflow in the size of long SEG-D traces

---
 src/ISEGD.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 97906c8..138f2ad 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1382,8 +1382,10 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
         samp_num = *curr_ch_set.number_of_samples();
     else
         samp_num = curr_ch_set.subscans_per_ch_set;
-    if (common.trc_samp_buf.size() != (samp_num * common.bits_per_sample) / 8)
-        common.trc_samp_buf.resize((samp_num * common.bits_per_sample) / 8);
+    uint64_t size = static_cast<uint64_t>(samp_num) *
+        common.bits_per_sample / 8;
+    if (common.trc_samp_buf.size() != size)
+        common.trc_samp_buf.resize(size);
     fill_buf_from_file(common.trc_samp_buf.data(), common.trc_samp_buf.size());
     char const* buf = common.trc_samp_buf.data();
     vector<double> result(samp_num);
-- 
2.43.0


From dd92a28382fa3b542baee51fc229534eb3f4995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:07 +0000
Subject: [PATCH 30/35] fix: SEG-D general trailer was taken for the next
 record

---
 src/ISEGD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 138f2ad..1c14bd0 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -144,6 +144,7 @@ Trace ISEGD::read_trace()
     if (pimpl->chans_in_record == pimpl->chans_read) {
         pimpl->chans_in_record = pimpl->chans_read = 0;
         pimpl->common.channel_sets.clear();
+        pimpl->read_trailer();
         if (has_record())
             pimpl->read_headers_before_traces();
     }
@@ -1411,7 +1412,7 @@ void ISEGD::Impl::read_trailer()
 {
     if (common.general_header.add_gen_hdr_blocks &&
 	   	common.general_header2.gen_trailer_num_of_blocks)
-        file_skip_bytes(CommonSEGD::GEN_TRLR_SIZE *
+        file_skip_bytes(static_cast<streamoff>(CommonSEGD::GEN_TRLR_SIZE) *
 					   	common.general_header2.gen_trailer_num_of_blocks);
 }
 
-- 
2.43.0


From ffa798e43a7240a76ebc02c28c30a5ac8a5b099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:07 +0000
Subject: [PATCH 31/35] fix: general header blocks of the previous SEG-D record
 were reported for the next one

---
 src/ISEGD.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 1c14bd0..97d1885 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -285,6 +285,7 @@ void ISEGD::Impl::read_general_headers()
 {
     fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
     char const* buf = common.gen_hdr_buf;
+    common.add_gen_hdr_blks_map.clear();
     read_gen_hdr1(buf);
     if (common.general_header.add_gen_hdr_blocks) {
         fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
-- 
2.43.0


From af7a045b3eb60f821524c2a29f888956ddc4b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:41 +0000
Subject: [PATCH 32/35] fix: exponents of SEG-D format 8015 were read past the
 caller's pointer

---
 src/ISEGD.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 97d1885..77e3f79 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -930,8 +930,9 @@ void ISEGD::Impl::assign_sample_reading()
             if (!counter) {
                 int exp[4];
                 for (int i = 0; i < 4; i += 2) {
-                    exp[i] = **buf >> 4;
-                    exp[i + 1] = **buf++ & 0xf;
+                    uint8_t val = read_u8(buf);
+                    exp[i] = val >> 4;
+                    exp[i + 1] = val & 0xf;
                 }
                 for (int i = 0; i < 4; ++i)
                     result[i] = read_i16(buf) * pow(2, exp[i] - 15);
-- 
2.43.0


From 14208c0a2e9457841615f7742fdd06234e917c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:41 +0000
Subject: [PATCH 33/35] fix: decoding of the quaternary SEG-D formats 8022 and
 8024

---
 src/ISEGD.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 77e3f79..cd02c66 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -942,20 +942,20 @@ void ISEGD::Impl::assign_sample_reading()
         break;
     case 8022:
         common.bits_per_sample = 8;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01110000;
-            return sign * (**buf++ & 0xf) * pow(2, exp - 4);
+        read_sample = [this](char const** buf) {
+            uint8_t val = read_u8(buf);
+            int sign = val & 0b10000000 ? -1 : 1;
+            int exp = val >> 4 & 0b111;
+            return sign * (val & 0xf) / pow(2, 4) * pow(4, exp);
         };
         break;
     case 8024:
         common.bits_per_sample = 16;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01110000;
-            uint16_t frac = **buf++ & 0xf;
-            frac = (frac << 8) & **buf++;
-            return sign * frac * pow(2, exp - 12);
+        read_sample = [this](char const** buf) {
+            uint16_t val = read_u16(buf);
+            int sign = val & 0x8000 ? -1 : 1;
+            int exp = val >> 12 & 0b111;
+            return sign * (val & 0xfff) / pow(2, 12) * pow(4, exp);
         };
         break;
     case 8036:
-- 
2.43.0


From 9948a8eab182538dcf94b8eacf0de399cf5bcaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:41 +0000
Subject: [PATCH 34/35] fix: decoding of the hexadecimal SEG-D formats 8042,
 8044 and 8048

---
 src/ISEGD.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index cd02c66..75fac97 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -968,28 +968,26 @@ void ISEGD::Impl::assign_sample_reading()
         break;
     case 8042:
         common.bits_per_sample = 8;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01100000;
-            return sign * (**buf++ & 0x1f) / pow(2, 5) * pow(16, exp);
+        read_sample = [this](char const** buf) {
+            uint8_t val = read_u8(buf);
+            int sign = val & 0b10000000 ? -1 : 1;
+            int exp = val >> 5 & 0b11;
+            return sign * (val & 0x1f) / pow(2, 5) * pow(16, exp);
         };
         break;
     case 8044:
         common.bits_per_sample = 16;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01100000;
-            uint16_t frac = **buf++ & 0x1f;
-            frac = (frac << 8) & **buf++;
-            return sign * frac / pow(2, 13) * pow(16, exp);
+        read_sample = [this](char const** buf) {
+            uint16_t val = read_u16(buf);
+            int sign = val & 0x8000 ? -1 : 1;
+            int exp = val >> 13 & 0b11;
+            return sign * (val & 0x1fff) / pow(2, 13) * pow(16, exp);
         };
         break;
     case 8048:
         common.bits_per_sample = 32;
         read_sample = [this](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf++ & 0b01111111;
-            return sign * read_u24(buf) / pow(2, 24) * pow(16, exp);
+            return dbl_from_ibm_float(buf);
         };
         break;
     case 8058:
-- 
2.43.0


From 7810cbfe5fd31e90d29587d3886117378ab1cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:41 +0000
Subject: [PATCH 35/35] fix: byte order and sign of SEG-D format 9036

---
 src/ISEGD.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 75fac97..b00973f 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1015,9 +1015,10 @@ void ISEGD::Impl::assign_sample_reading()
 		   	{ return swap(read_i24(buf)); };
         else
             read_sample = [](char const** buf) {
-                uint32_t result = read<uint16_t>(buf) << 8 |
-				   	read<uint8_t>(buf);
-                return result & 0x800000 ? result | 0xff000000 : result;
+                uint32_t result = read<uint16_t>(buf);
+                result |= read<uint8_t>(buf) << 16;
+                return static_cast<int32_t>(result & 0x800000 ?
+                                            result | 0xff000000 : result);
             };
         break;
     case 9038:
-- 
2.43.0

