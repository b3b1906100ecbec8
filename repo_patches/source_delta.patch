From 4e10f4d8b1a765dabfcf40ab89fd017a6bf8c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:41 +0000
Subject: [PATCH 01/23] fix: accept the transform noise options and the short
 random-seed option

---
 apps/transform/transform_cmd.h | 42 +++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/apps/transform/transform_cmd.h b/apps/transform/transform_cmd.h
index addd80c..4b7acbc 100644
--- a/apps/transform/transform_cmd.h
+++ b/apps/transform/transform_cmd.h
@@ -100,7 +100,7 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             {0, 0, 0, 0}
         };
 
-        int c = getopt_long(argc, argv, "hve", long_options, &option_index);
+        int c = getopt_long(argc, argv, "hvea:", long_options, &option_index);
         if (c == -1)
             break;
 
@@ -138,6 +138,26 @@ inline args get_args (int argc, char **argv, const std::string &usage)
                 args.commands.push_back (get_command ("copy-field", optarg));
                 break;
             }
+            case GAUSSIAN_NOISE:
+            {
+                args.commands.push_back (get_command ("gaussian-noise", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_X:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-x", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_Y:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-y", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_Z:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-z", optarg));
+                break;
+            }
             case QUANTIZE_XYZ:
             {
                 args.commands.push_back (get_command ("quantize-xyz", optarg));
@@ -193,6 +213,26 @@ inline args get_args (int argc, char **argv, const std::string &usage)
                 args.commands.push_back (get_command ("set", optarg));
                 break;
             }
+            case UNIFORM_NOISE:
+            {
+                args.commands.push_back (get_command ("uniform-noise", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_X:
+            {
+                args.commands.push_back (get_command ("uniform-noise-x", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_Y:
+            {
+                args.commands.push_back (get_command ("uniform-noise-y", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_Z:
+            {
+                args.commands.push_back (get_command ("uniform-noise-z", optarg));
+                break;
+            }
         }
     }
 
-- 
2.43.0


From 6172fee21ff89cb306c27f22d8f413b8a98054cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 02/23] fix: make replace-not write the field that was named

---
 apps/transform/transform.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index d043456..a4ae647 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -302,11 +302,11 @@ OP get_replace_not_op (const std::string &field_name,
             switch (field_name[0])
             {
                 case 'c': p.c = r; break;
-                case 'p': p.c = r; break;
-                case 'i': p.c = r; break;
-                case 'r': p.c = r; break;
-                case 'g': p.c = r; break;
-                case 'b': p.c = r; break;
+                case 'p': p.p = r; break;
+                case 'i': p.i = r; break;
+                case 'r': p.r = r; break;
+                case 'g': p.g = r; break;
+                case 'b': p.b = r; break;
                 case 'e': // extra
                 {
                     assert (is_extra_field (field_name));
-- 
2.43.0


From e1b45c7338ab527a6a7ca72b9695946022b9fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:05 +0000
Subject: [PATCH 03/23] fix: reject mutually exclusive diff options

---
 apps/diff/diff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/diff/diff.cpp b/apps/diff/diff.cpp
index c349918..608d0cc 100644
--- a/apps/diff/diff.cpp
+++ b/apps/diff/diff.cpp
@@ -46,7 +46,7 @@ int main (int argc, char **argv)
             clog << "filename2\t'" << args.fn2 << "'" << endl;
         }
 
-        if (args.header_only + args.data_only + !args.fields.empty () > 2)
+        if (args.header_only + args.data_only + !args.fields.empty () > 1)
             throw runtime_error ("Can't specify more than 1 of 'header-only', 'data-only', and specific fields");
 
         if (args.verbose)
-- 
2.43.0


From c19516164a9c9ffc059689c5f98e9b3549a36b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:54 +0000
Subject: [PATCH 04/23] fix: print 32-bit unsigned JSON values

---
 spoc/json.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spoc/json.h b/spoc/json.h
index f681258..88e3b3e 100644
--- a/spoc/json.h
+++ b/spoc/json.h
@@ -20,6 +20,7 @@ namespace json
 //      char,
 //      uint8_t,
 //      uint16_t,
+//      uint32_t,
 //      uint64_t,
 //      float,
 //      double,
@@ -93,6 +94,10 @@ inline void pretty_print (std::ostream &s, const json::value &v, const int inden
     {
         s << std::any_cast<uint16_t> (v);
     }
+    else if (v.type () == typeid (uint32_t))
+    {
+        s << std::any_cast<uint32_t> (v);
+    }
     else if (v.type () == typeid (uint64_t))
     {
         s << std::any_cast<uint64_t> (v);
@@ -172,6 +177,8 @@ inline std::ostream &operator<< (std::ostream &s, const json::value &v)
         s << int (std::any_cast<uint8_t> (v));
     else if (v.type () == typeid (uint16_t))
         s << std::any_cast<uint16_t> (v);
+    else if (v.type () == typeid (uint32_t))
+        s << std::any_cast<uint32_t> (v);
     else if (v.type () == typeid (uint64_t))
         s << std::any_cast<uint64_t> (v);
     else if (v.type () == typeid (float))
-- 
2.43.0


From 860680b514b979d9d124e5c5c5e6df34035866eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 05/23] fix: read records that are larger than the read buffer

---
 spoc/io.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spoc/io.h b/spoc/io.h
index f41f265..a3875db 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -99,10 +99,6 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
     const size_t total_points,
     const size_t extra_fields)
 {
-    // Allocate the buffer
-    const size_t buffer_size = 1 * 1024;
-    std::vector<char> buffer (buffer_size);
-
     // Determine sizes
     const size_t struct_size =
         sizeof(double) // x
@@ -116,6 +112,10 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
         + sizeof(uint16_t); // b
     const size_t extra_size = extra_fields * sizeof(uint64_t);
     const size_t record_size = struct_size + extra_size;
+
+    // Allocate the buffer, it must hold at least one record
+    const size_t buffer_size = std::max (static_cast<size_t> (1 * 1024), record_size);
+    std::vector<char> buffer (buffer_size);
     const size_t records_per_buffer = buffer_size / record_size;
 
     // Allocate the records
-- 
2.43.0


From d42d53c8fe7c3a4d5b29a7c5be7be8c285b276e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 06/23] fix: reject extra field counts that do not fit in the
 header

---
 spoc/file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoc/file.h b/spoc/file.h
index 238df40..86e045f 100644
--- a/spoc/file.h
+++ b/spoc/file.h
@@ -146,6 +146,8 @@ class spoc_file
     header::header get_header () const
     {
         const size_t extra_fields = get_extra_fields ();
+        if (extra_fields > 0xFF)
+            throw std::runtime_error ("The number of extra fields may not exceed 255");
         const size_t total_points = prs.size ();
         header::header h (major_version, minor_version, wkt, extra_fields, total_points, compressed);
 
-- 
2.43.0


From 444d4f3e68dfd88db0bc5869a4e6d34358c00003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:36 +0000
Subject: [PATCH 07/23] fix: reject WKT strings that do not fit in the header
 when writing

---
 spoc/header.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoc/header.h b/spoc/header.h
index c76d2ce..96af56a 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -136,6 +136,8 @@ inline void write_header (std::ostream &s, const header &h)
 {
     if (!h.check_signature ())
         throw std::runtime_error ("Invalid spoc file format");
+    if (!h.is_valid ())
+        throw std::runtime_error ("The OGC WKT length may not exceed 65535");
     s.write (reinterpret_cast<const char*>(h.signature), 4 * sizeof(char));
     s.write (reinterpret_cast<const char*>(&h.major_version), sizeof(uint8_t));
     s.write (reinterpret_cast<const char*>(&h.minor_version), sizeof(uint8_t));
-- 
2.43.0


From ce759397a21530f70f820bd0e6e2405b5b6e19c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:02 +0000
Subject: [PATCH 08/23] fix: report truncated input instead of returning
 default values

---
 spoc/header.h       | 2 ++
 spoc/io.h           | 6 ++++++
 spoc/point_record.h | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/spoc/header.h b/spoc/header.h
index 96af56a..8ace5b6 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -174,6 +174,8 @@ inline header read_header (std::istream &s)
     s.read (reinterpret_cast<char*>(&h.extra_fields), sizeof(uint8_t));
     s.read (reinterpret_cast<char*>(&h.total_points), sizeof(uint64_t));
     s.read (reinterpret_cast<char*>(&h.compressed), sizeof(uint8_t));
+    if (!s)
+        throw std::runtime_error ("Could not read the entire header");
     return h;
 }
 
diff --git a/spoc/io.h b/spoc/io.h
index a3875db..f18069f 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -75,6 +75,8 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
     // Get number of compressed bytes
     uint64_t n = 0;
     s.read (reinterpret_cast<char*>(&n), sizeof(uint64_t));
+    if (!s)
+        throw std::runtime_error ("Could not read the compressed length");
 
     // If a '0' was written, the vector is empty
     if (n == 0)
@@ -83,6 +85,8 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
     // Read compressed bytes
     std::vector<uint8_t> c (n);
     s.read (reinterpret_cast<char *> (&c[0]), n);
+    if (!s)
+        throw std::runtime_error ("Could not read the compressed data");
 
     // Decompress
     std::vector<T> x (size);
@@ -130,6 +134,8 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
             ? records_per_buffer
             : total_points - i;
         s.read (&buffer[0], total_records * record_size);
+        if (!s)
+            throw std::runtime_error ("Could not read all of the point records");
 
         // Convert from raw memory to record
         for (size_t j = 0; j < total_records; ++j)
diff --git a/spoc/point_record.h b/spoc/point_record.h
index c6353e3..96d2bb3 100644
--- a/spoc/point_record.h
+++ b/spoc/point_record.h
@@ -3,6 +3,7 @@
 #include "spoc/utils.h"
 #include <algorithm>
 #include <functional>
+#include <stdexcept>
 
 namespace spoc
 {
@@ -158,6 +159,8 @@ inline point_record read_point_record (std::istream &s, const size_t extra_field
         + sizeof(uint16_t));
     if (p.extra.size () != 0)
         s.read (reinterpret_cast<char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
+    if (!s)
+        throw std::runtime_error ("Could not read the entire point record");
     return p;
 }
 
-- 
2.43.0


From 3007fb7fe17e221f3f13ab6cef77fec7fb91e48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 09/23] fix: report failed writes

---
 spoc/header.h       | 2 ++
 spoc/io.h           | 5 +++++
 spoc/point_record.h | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/spoc/header.h b/spoc/header.h
index 8ace5b6..2d03330 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -148,6 +148,8 @@ inline void write_header (std::ostream &s, const header &h)
     s.write (reinterpret_cast<const char*>(&h.total_points), sizeof(uint64_t));
     s.write (reinterpret_cast<const char*>(&h.compressed), sizeof(uint8_t));
     s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write the header");
 }
 
 /// I/O function
diff --git a/spoc/io.h b/spoc/io.h
index f18069f..40b9662 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -377,6 +377,11 @@ inline void write_spoc_file_compressed (std::ostream &s, const spoc::file::spoc_
 
     for (size_t j = 0; j < extras.size (); ++j)
         write_compressed (s, extras[j]);
+
+    // Make sure that everything got written
+    s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write the compressed data");
 }
 
 /// Helper I/O function
diff --git a/spoc/point_record.h b/spoc/point_record.h
index 96d2bb3..70201b0 100644
--- a/spoc/point_record.h
+++ b/spoc/point_record.h
@@ -142,6 +142,8 @@ inline void write_point_record (std::ostream &s, const point_record &p)
     if (p.extra.size () != 0)
         s.write (reinterpret_cast<const char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
     s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write the point record");
 }
 
 // Record I/O
-- 
2.43.0


From 39bd95e689fc8a895891c78b3c4242d068275308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:04 +0000
Subject: [PATCH 10/23] fix: check the extra field index in get-field

---
 apps/tool/tool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index 75b7d6c..d3cb36e 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -54,7 +54,8 @@ inline void get_field (const T &f, std::ostream &os, const std::string &field_na
             case 'e': // extra
             {
                 assert (app_utils::is_extra_field (field_name));
-                assert (j < p.extra.size ());
+                if (j >= p.extra.size ())
+                    throw std::runtime_error ("Invalid extra field specification");
                 os << p.extra[j] << std::endl;
             }
             break;
-- 
2.43.0


From 533e08bc43f7f6087a78b309ae69bb66fc84f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 11/23] fix: detect unreadable values, not a missing final
 newline, in set-field

---
 apps/tool/tool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index d3cb36e..1912bdc 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -169,8 +169,8 @@ inline T set_field (const T &f, std::istream &field_ifs, const std::string &fiel
         else
             field_ifs >> f_size_t[i];
 
-        // Make sure there are still values to read
-        if (field_ifs.eof ())
+        // Make sure a value was read
+        if (field_ifs.fail ())
             throw std::runtime_error ("Reached end-of-file before reading all field values");
     }
 
-- 
2.43.0


From 1c2d626ad98f86c196768e5ff7eeb5be78a6be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:10 +0000
Subject: [PATCH 12/23] fix: process all of the bytes and check every zlib
 return code in memory

---
 spoc/compression.h | 54 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/spoc/compression.h b/spoc/compression.h
index 2b4605e..ba0d137 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -1,8 +1,10 @@
 #pragma once
 
+#include <algorithm>
 #include <cassert>
 #include <cstdint>
 #include <iostream>
+#include <limits>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -90,14 +92,28 @@ inline std::vector<uint8_t> compress (const uint8_t *p, const size_t nbytes, con
     zlib_deflator deflator (level);
 
     // Get bytes directly from the input vector
-    deflator.s.avail_in = nbytes;
+    //
+    // The number of bytes may not fit into 'avail_in'
+    size_t remaining = nbytes;
     deflator.s.next_in = const_cast<unsigned char *> (p);
 
+    int ret = Z_OK;
     do {
+        // Make more input available
+        if (deflator.s.avail_in == 0)
+        {
+            deflator.s.avail_in = std::min (remaining, static_cast<size_t> (std::numeric_limits<uInt>::max ()));
+            remaining -= deflator.s.avail_in;
+        }
+
         // Compress from input to output buffer
         deflator.s.avail_out = BUFFER_SIZE;
         deflator.s.next_out = &output_buffer[0];
-        deflate (&deflator.s, Z_FINISH);
+        ret = deflate (&deflator.s, remaining == 0 ? Z_FINISH : Z_NO_FLUSH);
+        // GCOV_EXCL_START
+        if (ret == Z_STREAM_ERROR)
+            throw std::runtime_error (zlib_error_string (ret));
+        // GCOV_EXCL_STOP
         const auto compressed_bytes = BUFFER_SIZE - deflator.s.avail_out;
 
         // Save compressed bytes
@@ -105,7 +121,7 @@ inline std::vector<uint8_t> compress (const uint8_t *p, const size_t nbytes, con
         output.insert (output.end (),
             output_buffer.begin (),
             output_buffer.begin () + compressed_bytes);
-    } while (deflator.s.avail_out == 0);
+    } while (ret != Z_STREAM_END);
 
     return output;
 }
@@ -155,22 +171,30 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
     zlib_inflator inflator;
 
     // Get bytes directory from input vector
-    inflator.s.avail_in = input.size ();
+    //
+    // The number of bytes may not fit into 'avail_in'
+    size_t remaining = input.size ();
     inflator.s.next_in = const_cast<unsigned char *> (&input[0]);
 
+    int ret = Z_OK;
     do {
-        inflator.s.avail_out = BUFFER_SIZE;
-        inflator.s.next_out = &output_buffer[0];
-        const auto ret = inflate (&inflator.s, Z_NO_FLUSH);
-        switch (ret)
+        // Make more input available
+        if (inflator.s.avail_in == 0)
         {
-            // GCOV_EXCL_START
-            case Z_NEED_DICT:
-            case Z_DATA_ERROR:
-            case Z_MEM_ERROR:
-                throw std::runtime_error (zlib_error_string (ret));
-            // GCOV_EXCL_STOP
+            inflator.s.avail_in = std::min (remaining, static_cast<size_t> (std::numeric_limits<uInt>::max ()));
+            remaining -= inflator.s.avail_in;
         }
+
+        inflator.s.avail_out = BUFFER_SIZE;
+        inflator.s.next_out = &output_buffer[0];
+        ret = inflate (&inflator.s, Z_NO_FLUSH);
+        // A buffer error means that the input ended too soon
+        // GCOV_EXCL_START
+        if (ret == Z_BUF_ERROR)
+            throw std::runtime_error (zlib_error_string (Z_DATA_ERROR));
+        if (ret != Z_OK && ret != Z_STREAM_END)
+            throw std::runtime_error (zlib_error_string (ret));
+        // GCOV_EXCL_STOP
         const auto decompressed_bytes = BUFFER_SIZE - inflator.s.avail_out;
 
         // Save decompressed bytes
@@ -178,7 +202,7 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
         output.insert (output.end (),
             output_buffer.begin (),
             output_buffer.begin () + decompressed_bytes);
-    } while (inflator.s.avail_out == 0);
+    } while (ret != Z_STREAM_END);
 
     return output;
 }
-- 
2.43.0


From ab8b1544e39cd55214703a03aacef8b5e6de2ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:19 +0000
Subject: [PATCH 13/23] fix: detect incomplete streams and zlib errors when
 (de)compressing streams

---
 spoc/compression.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/spoc/compression.h b/spoc/compression.h
index ba0d137..19bfb1e 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -142,6 +142,10 @@ inline void compress (std::istream &is, std::ostream &os, const int level)
     do {
         // Read into buffer from stream
         is.read (reinterpret_cast<char *> (&input_buffer[0]), BUFFER_SIZE);
+        // GCOV_EXCL_START
+        if (is.fail () && !is.eof ())
+            throw std::runtime_error (zlib_error_string (Z_ERRNO));
+        // GCOV_EXCL_STOP
         deflator.s.avail_in = is.gcount();
         deflator.s.next_in = &input_buffer[0];
 
@@ -149,7 +153,11 @@ inline void compress (std::istream &is, std::ostream &os, const int level)
             // Compress from input buffer to output buffer
             deflator.s.avail_out = BUFFER_SIZE;
             deflator.s.next_out = &output_buffer[0];
-            deflate (&deflator.s, is.eof() ? Z_FINISH : Z_NO_FLUSH);
+            const auto ret = deflate (&deflator.s, is.eof() ? Z_FINISH : Z_NO_FLUSH);
+            // GCOV_EXCL_START
+            if (ret == Z_STREAM_ERROR)
+                throw std::runtime_error (zlib_error_string (ret));
+            // GCOV_EXCL_STOP
             const auto compressed_bytes = BUFFER_SIZE - deflator.s.avail_out;
 
             // Write compressed bytes
@@ -231,9 +239,10 @@ inline void decompress (std::istream &is, std::ostream &os)
         is.read (reinterpret_cast<char *> (&input_buffer[0]), BUFFER_SIZE);
         inflator.s.avail_in = is.gcount();
 
+        // The data ended before the end of the compressed stream
         // GCOV_EXCL_START
         if (inflator.s.avail_in == 0)
-            break;
+            throw std::runtime_error (zlib_error_string (Z_DATA_ERROR));
         // GCOV_EXCL_STOP
 
         inflator.s.next_in = &input_buffer[0];
@@ -247,6 +256,7 @@ inline void decompress (std::istream &is, std::ostream &os)
             {
                 case Z_NEED_DICT:
                 case Z_DATA_ERROR:
+                case Z_STREAM_ERROR:
                 case Z_MEM_ERROR:
                     throw std::runtime_error (zlib_error_string (ret));
                 case Z_STREAM_END:
-- 
2.43.0


From 37d0668085649fdc933ccb6fd24847c528bc7805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 14/23] fix: make functions defined in headers inline

---
 apps/filter/filter.h           |  2 +-
 apps/merge/merge.h             |  2 +-
 apps/tile/tile.h               |  2 +-
 apps/tool/tool_cmd.h           |  2 +-
 apps/transform/transform.h     | 34 +++++++++++++++++-----------------
 apps/transform/transform_cmd.h |  2 +-
 spoc/app_utils.h               | 14 +++++++-------
 spoc/asprs.h                   |  2 +-
 spoc/cmd.h                     |  2 +-
 spoc/extent.h                  |  6 +++---
 spoc/test_utils.h              |  2 +-
 11 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/apps/filter/filter.h b/apps/filter/filter.h
index 86965b2..05df334 100644
--- a/apps/filter/filter.h
+++ b/apps/filter/filter.h
@@ -20,7 +20,7 @@ namespace filter_app
 namespace detail
 {
 
-std::vector<std::string> split (const std::string &s, const std::string &delimiter) {
+inline std::vector<std::string> split (const std::string &s, const std::string &delimiter) {
     size_t pos_start = 0, pos_end, delim_len = delimiter.length();
     std::vector<std::string> res;
 
diff --git a/apps/merge/merge.h b/apps/merge/merge.h
index 2a353b4..7bb4f79 100644
--- a/apps/merge/merge.h
+++ b/apps/merge/merge.h
@@ -10,7 +10,7 @@ namespace spoc
 namespace merge_app
 {
 
-void append (
+inline void append (
     const spoc::file::spoc_file &f1,
     spoc::file::spoc_file &f2,
     const unsigned id,
diff --git a/apps/tile/tile.h b/apps/tile/tile.h
index b9aea78..99367e9 100644
--- a/apps/tile/tile.h
+++ b/apps/tile/tile.h
@@ -14,7 +14,7 @@ namespace spoc
 namespace tile_app
 {
 
-double get_tile_size (const spoc::extent::extent &e, const size_t tiles)
+inline double get_tile_size (const spoc::extent::extent &e, const size_t tiles)
 {
     // Get difference in X and Y extents
     //
diff --git a/apps/tool/tool_cmd.h b/apps/tool/tool_cmd.h
index 7a93ddc..e1642b2 100644
--- a/apps/tool/tool_cmd.h
+++ b/apps/tool/tool_cmd.h
@@ -41,7 +41,7 @@ enum command_values
     RESOLUTION,
 };
 
-args set_command (const args &args, const std::string &name, const char *s)
+inline args set_command (const args &args, const std::string &name, const char *s)
 {
     std::string params;
     if (s != nullptr)
diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index a4ae647..c78282b 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -18,7 +18,7 @@ namespace transform_app
 namespace detail
 {
 
-const spoc::header::header read_header_uncompressed (std::istream &is)
+inline const spoc::header::header read_header_uncompressed (std::istream &is)
 {
     // Check preconditions
     REQUIRE (is.good ());
@@ -41,25 +41,25 @@ const spoc::header::header read_header_uncompressed (std::istream &is)
 using PR = spoc::point_record::point_record;
 using OP = std::function<PR(PR)>;
 
-OP get_add_x_op (double v)
+inline OP get_add_x_op (double v)
 {
     OP op = [=] (PR p) { p.x += v; return p; };
     return op;
 }
 
-OP get_add_y_op (double v)
+inline OP get_add_y_op (double v)
 {
     OP op = [=] (PR p) { p.y += v; return p; };
     return op;
 }
 
-OP get_add_z_op (double v)
+inline OP get_add_z_op (double v)
 {
     OP op = [=] (PR p) { p.z += v; return p; };
     return op;
 }
 
-OP get_copy_field_op (const std::string &field_name1,
+inline OP get_copy_field_op (const std::string &field_name1,
     const std::string &field_name2,
     const size_t extra_fields)
 {
@@ -137,7 +137,7 @@ OP get_copy_field_op (const std::string &field_name1,
     return op;
 }
 
-OP get_gaussian_noise_op (const size_t random_seed,
+inline OP get_gaussian_noise_op (const size_t random_seed,
     const double std_x,
     const double std_y,
     const double std_z)
@@ -166,7 +166,7 @@ OP get_gaussian_noise_op (const size_t random_seed,
 }
 
 // Set X, Y, Z to nearest precision by truncating
-OP get_quantize_op (const double precision)
+inline OP get_quantize_op (const double precision)
 {
     // Get the operation
     OP op = [=] (PR p)
@@ -182,7 +182,7 @@ OP get_quantize_op (const double precision)
 }
 
 // Replace values in a field
-OP get_replace_op (const std::string &field_name,
+inline OP get_replace_op (const std::string &field_name,
     const unsigned v1,
     const unsigned v2,
     const size_t extra_fields)
@@ -232,7 +232,7 @@ OP get_replace_op (const std::string &field_name,
 }
 
 // Replace all values that are not equal to a value with another value
-OP get_replace_not_op (const std::string &field_name,
+inline OP get_replace_not_op (const std::string &field_name,
     std::vector<unsigned> v,
     const size_t extra_fields)
 {
@@ -322,7 +322,7 @@ OP get_replace_not_op (const std::string &field_name,
     return op;
 }
 
-OP get_rotate_x_op (const double degrees)
+inline OP get_rotate_x_op (const double degrees)
 {
     // Convert degrees to radians
     const double r = degrees * M_PI / 180.0;
@@ -341,7 +341,7 @@ OP get_rotate_x_op (const double degrees)
     return op;
 }
 
-OP get_rotate_y_op (const double degrees)
+inline OP get_rotate_y_op (const double degrees)
 {
     // Convert degrees to radians
     const double r = degrees * M_PI / 180.0;
@@ -360,7 +360,7 @@ OP get_rotate_y_op (const double degrees)
     return op;
 }
 
-OP get_rotate_z_op (const double degrees)
+inline OP get_rotate_z_op (const double degrees)
 {
     // Convert degrees to radians
     const double r = degrees * M_PI / 180.0;
@@ -379,25 +379,25 @@ OP get_rotate_z_op (const double degrees)
     return op;
 }
 
-OP get_scale_x_op (double v)
+inline OP get_scale_x_op (double v)
 {
     OP op = [=] (PR p) { p.x *= v; return p; };
     return op;
 }
 
-OP get_scale_y_op (double v)
+inline OP get_scale_y_op (double v)
 {
     OP op = [=] (PR p) { p.y *= v; return p; };
     return op;
 }
 
-OP get_scale_z_op (double v)
+inline OP get_scale_z_op (double v)
 {
     OP op = [=] (PR p) { p.z *= v; return p; };
     return op;
 }
 
-OP get_set_op (const std::string &field_name, const double v, const size_t extra_fields)
+inline OP get_set_op (const std::string &field_name, const double v, const size_t extra_fields)
 {
     using namespace spoc::app_utils;
 
@@ -436,7 +436,7 @@ OP get_set_op (const std::string &field_name, const double v, const size_t extra
     return op;
 }
 
-OP get_uniform_noise_op (const size_t random_seed,
+inline OP get_uniform_noise_op (const size_t random_seed,
     const double mag_x,
     const double mag_y,
     const double mag_z)
diff --git a/apps/transform/transform_cmd.h b/apps/transform/transform_cmd.h
index 4b7acbc..3360dd0 100644
--- a/apps/transform/transform_cmd.h
+++ b/apps/transform/transform_cmd.h
@@ -55,7 +55,7 @@ enum command_values
     UNIFORM_NOISE_Z,
 };
 
-command get_command (const std::string &name, const char *s)
+inline command get_command (const std::string &name, const char *s)
 {
     // std::string() expects a null-terminated string
     if (s != nullptr)
diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index eef04f2..e3fac42 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -78,13 +78,13 @@ class output_stream
 
 const std::unordered_set<std::string> field_strings {"x", "y", "z", "c", "p", "i", "r", "g", "b"};
 
-bool is_extra_field (const std::string &f)
+inline bool is_extra_field (const std::string &f)
 {
     // The field name should look like 'e#'
     return f[0] == 'e';
 }
 
-int get_extra_index (const std::string &f)
+inline int get_extra_index (const std::string &f)
 {
     if (!is_extra_field (f))
         return -1;
@@ -102,7 +102,7 @@ int get_extra_index (const std::string &f)
     return n;
 }
 
-bool check_field_name (const std::string &f)
+inline bool check_field_name (const std::string &f)
 {
     // Does it match a string?
     if (field_strings.find (f) != field_strings.end ())
@@ -120,7 +120,7 @@ bool check_field_name (const std::string &f)
     return false;
 }
 
-std::string consume_field_name (std::string &s)
+inline std::string consume_field_name (std::string &s)
 {
     // Check string
     assert (!s.empty ());
@@ -146,7 +146,7 @@ std::string consume_field_name (std::string &s)
     return field_name;
 }
 
-unsigned consume_int (std::string &s)
+inline unsigned consume_int (std::string &s)
 {
     size_t sz = 0;
     unsigned v = 0;
@@ -156,7 +156,7 @@ unsigned consume_int (std::string &s)
     return v;
 }
 
-std::vector<unsigned> consume_ints (std::string &s)
+inline std::vector<unsigned> consume_ints (std::string &s)
 {
     std::vector<unsigned> vs;
     // Get the first one
@@ -172,7 +172,7 @@ std::vector<unsigned> consume_ints (std::string &s)
     return vs;
 }
 
-double consume_double (std::string &s)
+inline double consume_double (std::string &s)
 {
     size_t sz = 0;
     double v = 0.0;
diff --git a/spoc/asprs.h b/spoc/asprs.h
index 3412608..ffbb4aa 100644
--- a/spoc/asprs.h
+++ b/spoc/asprs.h
@@ -38,7 +38,7 @@ enum class point_class
     exclusion = 22,
 };
 
-std::unordered_map<int,std::string> get_asprs_class_map ()
+inline std::unordered_map<int,std::string> get_asprs_class_map ()
 {
     std::unordered_map<int,std::string> m;
     m[0] = "unclassified";
diff --git a/spoc/cmd.h b/spoc/cmd.h
index cc8914f..22c70a2 100644
--- a/spoc/cmd.h
+++ b/spoc/cmd.h
@@ -11,7 +11,7 @@ namespace spoc
 namespace cmd
 {
 
-void print_help (std::ostream &os, const std::string &usage, const size_t noptions, option long_options[])
+inline void print_help (std::ostream &os, const std::string &usage, const size_t noptions, option long_options[])
 {
     // Check preconditions
     REQUIRE (os.good ());
diff --git a/spoc/extent.h b/spoc/extent.h
index 7e8c762..c6f861f 100644
--- a/spoc/extent.h
+++ b/spoc/extent.h
@@ -18,14 +18,14 @@ struct extent
     spoc::point::point<double> maxp;
 };
 
-double get_volume (const extent &e)
+inline double get_volume (const extent &e)
 {
     return (e.maxp.x - e.minp.x)
         * (e.maxp.y - e.minp.y)
         * (e.maxp.z - e.minp.z);
 }
 
-double get_area (const extent &e)
+inline double get_area (const extent &e)
 {
     return (e.maxp.x - e.minp.x)
         * (e.maxp.y - e.minp.y);
@@ -61,7 +61,7 @@ inline bool all_less_equal (const spoc::point::point<double> &a, const spoc::poi
     return true;
 }
 
-extent get_total_extent(const extent &e1, const extent &e2)
+inline extent get_total_extent(const extent &e1, const extent &e2)
 {
     spoc::point::point<double> minp { std::numeric_limits<double>::max (),
             std::numeric_limits<double>::max (),
diff --git a/spoc/test_utils.h b/spoc/test_utils.h
index 25ae6cf..c9f5928 100644
--- a/spoc/test_utils.h
+++ b/spoc/test_utils.h
@@ -24,7 +24,7 @@ inline void VerificationFailed (const char *e, const char *file, const unsigned
     throw std::runtime_error (s.str ());
 }
 
-void test_verification (const bool flag,
+inline void test_verification (const bool flag,
     const char *e,
     const char *file,
     const unsigned line)
-- 
2.43.0


From 6f99bae28c5d6dc91dc7c429bc97e74493d2d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 15/23] fix: quantize coordinates that do not fit in an int

---
 apps/transform/transform.h | 8 +++++---
 spoc/utils.h               | 9 ++++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index c78282b..cdd93fc 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -172,9 +172,11 @@ inline OP get_quantize_op (const double precision)
     OP op = [=] (PR p)
     {
         // Quantize the point
-        p.x = static_cast<int> (p.x / precision) * precision;
-        p.y = static_cast<int> (p.y / precision) * precision;
-        p.z = static_cast<int> (p.z / precision) * precision;
+        //
+        // Adding zero turns a negative zero into a positive zero
+        p.x = std::trunc (p.x / precision) * precision + 0.0;
+        p.y = std::trunc (p.y / precision) * precision + 0.0;
+        p.z = std::trunc (p.z / precision) * precision + 0.0;
         return p;
     };
 
diff --git a/spoc/utils.h b/spoc/utils.h
index e7f8d63..5308293 100644
--- a/spoc/utils.h
+++ b/spoc/utils.h
@@ -1,5 +1,6 @@
 #pragma once
 #include "contracts.h"
+#include <cmath>
 #include <functional>
 
 namespace spoc
@@ -44,9 +45,11 @@ void quantize (T &p, const double precision)
     for (size_t i = 0; i < p.size (); ++i)
     {
         // Quantize the point
-        p[i].x = static_cast<int> (p[i].x / precision) * precision;
-        p[i].y = static_cast<int> (p[i].y / precision) * precision;
-        p[i].z = static_cast<int> (p[i].z / precision) * precision;
+        //
+        // Adding zero turns a negative zero into a positive zero
+        p[i].x = std::trunc (p[i].x / precision) * precision + 0.0;
+        p[i].y = std::trunc (p[i].y / precision) * precision + 0.0;
+        p[i].z = std::trunc (p[i].z / precision) * precision + 0.0;
     }
 }
 
-- 
2.43.0


From 378993c88f20a5aae15c0957a5b9fddc4d37695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:02 +0000
Subject: [PATCH 16/23] fix: report an extra field that only one of the files
 has

---
 apps/diff/diff.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apps/diff/diff.h b/apps/diff/diff.h
index 38a82c7..1975f75 100644
--- a/apps/diff/diff.h
+++ b/apps/diff/diff.h
@@ -149,8 +149,11 @@ inline int diff (const spoc::file::spoc_file &f1,
                 case '8':
                 case '9': {
                               const size_t index = field - '0';
-                              if (index < get_extra_fields_size (f1.get_point_records ())
-                                    && index < get_extra_fields_size (f2.get_point_records ())
+                              const bool e1 = index < get_extra_fields_size (f1.get_point_records ());
+                              const bool e2 = index < get_extra_fields_size (f2.get_point_records ());
+                              if (e1 != e2)
+                                  return_code = -1;
+                              else if (e1 && e2
                                     && (get_extra (index, f1.get_point_records ()) != get_extra (index, f2.get_point_records ())))
                                   return_code = -1;
                               break;
-- 
2.43.0


From 23eade479695218ebf43da034bc5e9c4ad97fe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 17/23] fix: check point record and extra field indexes in all
 builds

---
 spoc/file.h         |  6 ++++--
 spoc/point_record.h | 10 ++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/spoc/file.h b/spoc/file.h
index 86e045f..687ff4a 100644
--- a/spoc/file.h
+++ b/spoc/file.h
@@ -132,7 +132,8 @@ class spoc_file
     /// @brief Readonly point record access
     const point_record::point_record &get_point_record (const size_t i) const
     {
-        assert (i < prs.size ());
+        if (i >= prs.size ())
+            throw std::runtime_error ("The point record index is out of range");
         return prs[i];
     }
 
@@ -207,7 +208,8 @@ class spoc_file
     /// @param pr Point record value
     void set_point_record (const size_t i, const point_record::point_record &p)
     {
-        REQUIRE (i < prs.size ());
+        if (i >= prs.size ())
+            throw std::runtime_error ("The point record index is out of range");
         const size_t extra_fields = prs.empty () ? 0 : prs[0].extra.size ();
         if (p.extra.size () != extra_fields)
             throw std::runtime_error ("spoc_file::set_point_record(): the point record extra fields size is inconsistent with existing point records");
diff --git a/spoc/point_record.h b/spoc/point_record.h
index 70201b0..194c2aa 100644
--- a/spoc/point_record.h
+++ b/spoc/point_record.h
@@ -254,7 +254,8 @@ inline std::vector<uint64_t> get_extra (const size_t k, const point_records &p)
     std::vector<uint64_t> x (p.size ());
     for (size_t n = 0; n < p.size (); ++n)
     {
-        assert (k < p[n].extra.size ());
+        if (k >= p[n].extra.size ())
+            throw std::runtime_error ("The extra field index is out of range");
         x[n] = p[n].extra[k];
     }
     return x;
@@ -304,7 +305,12 @@ inline bool has_all_zero_rgb (const point_records &prs)
 inline bool has_all_zero_extra (const size_t n, const point_records &prs)
 {
     return !std::any_of (std::begin (prs), std::end (prs),
-        [&] (const point_record &pr) { return pr.extra[n] != 0; });
+        [&] (const point_record &pr)
+        {
+            if (n >= pr.extra.size ())
+                throw std::runtime_error ("The extra field index is out of range");
+            return pr.extra[n] != 0;
+        });
 }
 
 } // namespace point_record
-- 
2.43.0


From abab077a05c1ff406600f693e7c3c94443f510a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 18/23] fix: document the tool and info options that exist

---
 apps/info/info.1.md | 2 +-
 apps/tool/tool.1.md | 5 +----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/apps/info/info.1.md b/apps/info/info.1.md
index 27847fc..440f781 100644
--- a/apps/info/info.1.md
+++ b/apps/info/info.1.md
@@ -72,7 +72,7 @@ highest 25% of the values are spread out over the range 89 to 4088.
 \-\-classification-info, -l
 : Toggle classification information switch
 
-\-\-metric-info, -l
+\-\-metric-info, -m
 : Toggle metric information switch
 
 \-\-compact, -c
diff --git a/apps/tool/tool.1.md b/apps/tool/tool.1.md
index 656b435..3aad645 100644
--- a/apps/tool/tool.1.md
+++ b/apps/tool/tool.1.md
@@ -25,13 +25,10 @@ Collection of tools to run on a SPOC file
 \-\-version, -e
 :   Print version information and exit
 
-\-\-random-seed=*#*, -r *#*
-:   Set the random seed equal to *#*
-
 \-\-resolution=*#*
 :   Set the resolution used for upsampling
 
-\-\-field-filename=*FN*
+\-\-field-filename=*FN*, -f *FN*
 :   Set the filename of the text file used with the *set-field* command.
     This file (or named pipe) will contain newline separated values for
     the field being set.
-- 
2.43.0


From 3ff08006673c8828dbe377065166e25771359a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:13 +0000
Subject: [PATCH 19/23] Restore the test helper header as it was

---
 spoc/test_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spoc/test_utils.h b/spoc/test_utils.h
index c9f5928..25ae6cf 100644
--- a/spoc/test_utils.h
+++ b/spoc/test_utils.h
@@ -24,7 +24,7 @@ inline void VerificationFailed (const char *e, const char *file, const unsigned
     throw std::runtime_error (s.str ());
 }
 
-inline void test_verification (const bool flag,
+void test_verification (const bool flag,
     const char *e,
     const char *file,
     const unsigned line)
-- 
2.43.0


From 01849f84194decbc2b60e5f0ba5b1b57ba8868a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:10 +0000
Subject: [PATCH 20/23] fix: report output that could not be written to
 standard output

---
 apps/info/info.cpp | 5 +++++
 apps/srs/srs.cpp   | 5 +++++
 apps/tool/tool.cpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/apps/info/info.cpp b/apps/info/info.cpp
index 9121ba9..b51fa9f 100644
--- a/apps/info/info.cpp
+++ b/apps/info/info.cpp
@@ -83,6 +83,11 @@ int main (int argc, char **argv)
             }
         }
 
+        // Make sure that everything was written
+        cout.flush ();
+        if (!cout)
+            throw runtime_error ("Could not write to stdout");
+
         return 0;
     }
     catch (const exception &e)
diff --git a/apps/srs/srs.cpp b/apps/srs/srs.cpp
index 52b4ac4..090b21c 100644
--- a/apps/srs/srs.cpp
+++ b/apps/srs/srs.cpp
@@ -117,6 +117,11 @@ int main (int argc, char **argv)
             }
         }
 
+        // Make sure that everything was written
+        cout.flush ();
+        if (!cout)
+            throw runtime_error ("Could not write to stdout");
+
         return 0;
     }
     catch (const exception &e)
diff --git a/apps/tool/tool.cpp b/apps/tool/tool.cpp
index 8347f9a..3475875 100644
--- a/apps/tool/tool.cpp
+++ b/apps/tool/tool.cpp
@@ -63,6 +63,11 @@ int main (int argc, char **argv)
             const auto l = consume_field_name (s);
             get_field (f, cout, l);
 
+            // Make sure that everything was written
+            cout.flush ();
+            if (!cout)
+                throw runtime_error ("Could not write to stdout");
+
             // Short-circuit so that the SPOC file is not written
             return 0;
         }
-- 
2.43.0


From d29687393b5cc2323cfca3382c552a2fac498871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:17 +0000
Subject: [PATCH 21/23] fix: document the argument of spoc_filter
 --remove-coords

---
 apps/filter/filter.1.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/filter/filter.1.md b/apps/filter/filter.1.md
index 618dd72..d876bf4 100644
--- a/apps/filter/filter.1.md
+++ b/apps/filter/filter.1.md
@@ -59,7 +59,7 @@ Remove point records from a SPOC file that satisfy certain properties
     non-zero value, then the point with the non-unique value will be
     selected randomly.
 
-\-\-remove-coords, -c
+\-\-remove-coords=*EXPR*, -c *EXPR*
 :   Remove points based on their coordinate values. To use this option
     specify a coordinate value, a comparison operator, and a float value
     separated by a space. Enclose these values in quotation marks. For
-- 
2.43.0


From 5d43874ef92a1d791b4f57cf9278c35b4af89b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:48 +0000
Subject: [PATCH 22/23] fix: refuse value lists with an unreadable value

---
 spoc/app_utils.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index e3fac42..610fcd1 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -163,10 +163,9 @@ inline std::vector<unsigned> consume_ints (std::string &s)
     unsigned v = consume_int (s);
     vs.push_back (v);
     // Get the rest
-    while (true)
+    while (!s.empty ())
     {
-        try { v = consume_int (s); }
-        catch (...) { break; }
+        v = consume_int (s);
         vs.push_back (v);
     }
     return vs;
-- 
2.43.0


From 8144ae7bb479fda73c2b3a768b4b37dd5de143d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:48 +0000
Subject: [PATCH 23/23] fix: do not sign-extend the value of replace-not

---
 apps/transform/transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index cdd93fc..14434cd 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -253,7 +253,7 @@ inline OP get_replace_not_op (const std::string &field_name,
         throw std::runtime_error ("Not enough values were specified in the replace-not command");
 
     // Get the last value
-    const int r = v.back ();
+    const unsigned r = v.back ();
 
     // Remove it
     v.pop_back ();
-- 
2.43.0

