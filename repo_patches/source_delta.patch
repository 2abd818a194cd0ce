From 1651f0c35ba2504af482751bc52fde9f75d50dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 01/27] fix: reading uncompressed records larger than the read
 buffer never terminates

A record with 124 or more extra fields is larger than the 1 KiB buffer, so
the number of records per buffer was 0 and the read loop did not advance.
---
 spoc/io.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spoc/io.h b/spoc/io.h
index f41f265..09e8e6d 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -99,10 +99,6 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
     const size_t total_points,
     const size_t extra_fields)
 {
-    // Allocate the buffer
-    const size_t buffer_size = 1 * 1024;
-    std::vector<char> buffer (buffer_size);
-
     // Determine sizes
     const size_t struct_size =
         sizeof(double) // x
@@ -116,6 +112,10 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
         + sizeof(uint16_t); // b
     const size_t extra_size = extra_fields * sizeof(uint64_t);
     const size_t record_size = struct_size + extra_size;
+
+    // Allocate the buffer. It must be able to hold at least one record.
+    const size_t buffer_size = std::max (static_cast<size_t> (1 * 1024), record_size);
+    std::vector<char> buffer (buffer_size);
     const size_t records_per_buffer = buffer_size / record_size;
 
     // Allocate the records
-- 
2.43.0


From c54301637371192b962636fc1b2aaf13a9cbcc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 02/27] fix: compression drops the sign of negative zeros

A coordinate column holding only zeros of either sign was treated as an
all-zero column, and its negative zeros were read back as positive zeros.
---
 spoc/io.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spoc/io.h b/spoc/io.h
index 09e8e6d..80d3434 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -13,6 +13,7 @@
 #include <iostream>
 #include <limits>
 #include <string>
+#include <type_traits>
 #include <unordered_set>
 #include <vector>
 
@@ -25,8 +26,9 @@ namespace io
 template<typename T>
 inline bool all_zero (const std::vector<T> &x)
 {
+    // Negative zeros are not stored as zeros
     if (std::any_of (x.begin (), x.end (),
-        [](const T &i) { return i != 0; }))
+        [](const T &i) { return i != 0 || (std::is_floating_point_v<T> && std::signbit (static_cast<double> (i))); }))
         return false;
     return true;
 }
-- 
2.43.0


From aba8516eaeda4002f9b4ed8f02f67cdec281956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 03/27] fix: truncated input is read as if it were complete

None of the readers checked the stream, so that the missing part of a
truncated file was silently read as zeros or as stale buffer contents.
---
 spoc/header.h       | 5 ++++-
 spoc/io.h           | 6 ++++++
 spoc/point_record.h | 3 +++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/spoc/header.h b/spoc/header.h
index c76d2ce..016ceb3 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -4,6 +4,7 @@
 #include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 
 namespace spoc
@@ -154,7 +155,7 @@ inline header read_header (std::istream &s)
 {
     header h;
     s.read (reinterpret_cast<char*>(&h.signature), 4 * sizeof(char));
-    if (!h.check_signature ())
+    if (!s || !h.check_signature ())
         throw std::runtime_error ("Invalid spoc file format");
     s.read (reinterpret_cast<char*>(&h.major_version), sizeof(uint8_t));
     if (h.major_version != MAJOR_VERSION)
@@ -172,6 +173,8 @@ inline header read_header (std::istream &s)
     s.read (reinterpret_cast<char*>(&h.extra_fields), sizeof(uint8_t));
     s.read (reinterpret_cast<char*>(&h.total_points), sizeof(uint64_t));
     s.read (reinterpret_cast<char*>(&h.compressed), sizeof(uint8_t));
+    if (!s)
+        throw std::runtime_error ("Unexpected end of file while reading the header");
     return h;
 }
 
diff --git a/spoc/io.h b/spoc/io.h
index 80d3434..5db083d 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -77,6 +77,8 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
     // Get number of compressed bytes
     uint64_t n = 0;
     s.read (reinterpret_cast<char*>(&n), sizeof(uint64_t));
+    if (!s)
+        throw std::runtime_error ("Unexpected end of file while reading the compressed data");
 
     // If a '0' was written, the vector is empty
     if (n == 0)
@@ -85,6 +87,8 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
     // Read compressed bytes
     std::vector<uint8_t> c (n);
     s.read (reinterpret_cast<char *> (&c[0]), n);
+    if (!s)
+        throw std::runtime_error ("Unexpected end of file while reading the compressed data");
 
     // Decompress
     std::vector<T> x (size);
@@ -132,6 +136,8 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
             ? records_per_buffer
             : total_points - i;
         s.read (&buffer[0], total_records * record_size);
+        if (!s)
+            throw std::runtime_error ("Unexpected end of file while reading the point records");
 
         // Convert from raw memory to record
         for (size_t j = 0; j < total_records; ++j)
diff --git a/spoc/point_record.h b/spoc/point_record.h
index c6353e3..a2c319d 100644
--- a/spoc/point_record.h
+++ b/spoc/point_record.h
@@ -3,6 +3,7 @@
 #include "spoc/utils.h"
 #include <algorithm>
 #include <functional>
+#include <stdexcept>
 
 namespace spoc
 {
@@ -158,6 +159,8 @@ inline point_record read_point_record (std::istream &s, const size_t extra_field
         + sizeof(uint16_t));
     if (p.extra.size () != 0)
         s.read (reinterpret_cast<char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
+    if (!s)
+        throw std::runtime_error ("Unexpected end of file while reading a point record");
     return p;
 }
 
-- 
2.43.0


From 6e74a35d5b070ba50716074144005b899fffd3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 04/27] fix: writing a header with an oversized WKT corrupts
 the output

The constructor rejects a WKT longer than 65535 bytes, but a longer one can be
assigned later, and its length was then written modulo 65536.
---
 spoc/header.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spoc/header.h b/spoc/header.h
index 016ceb3..082ef98 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -135,7 +135,7 @@ inline bool operator!= (const header &a, const header &b)
 /// @param h Header struct
 inline void write_header (std::ostream &s, const header &h)
 {
-    if (!h.check_signature ())
+    if (!h.is_valid ())
         throw std::runtime_error ("Invalid spoc file format");
     s.write (reinterpret_cast<const char*>(h.signature), 4 * sizeof(char));
     s.write (reinterpret_cast<const char*>(&h.major_version), sizeof(uint8_t));
-- 
2.43.0


From be2a4af837dcb0ab52d0a5e7c22f7980d5d41021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 05/27] fix: writing more than 255 extra fields corrupts the
 output

The header stores the number of extra fields in 8 bits, and it was truncated.
---
 spoc/file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoc/file.h b/spoc/file.h
index 238df40..3b49184 100644
--- a/spoc/file.h
+++ b/spoc/file.h
@@ -147,6 +147,8 @@ class spoc_file
     {
         const size_t extra_fields = get_extra_fields ();
         const size_t total_points = prs.size ();
+        if (extra_fields > 0xFF)
+            throw std::runtime_error ("The number of extra fields may not exceed 255");
         header::header h (major_version, minor_version, wkt, extra_fields, total_points, compressed);
 
         return h;
-- 
2.43.0


From 0ce50f8eda0c11c2d6ffd07bd39ecb62b424dd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 06/27] fix: write failures are not reported

The writers did not check the stream, so that writing to a full disk looked
like a success to callers and to the applications.
---
 apps/tool/tool.h    | 3 +++
 spoc/header.h       | 2 ++
 spoc/io.h           | 4 ++++
 spoc/point_record.h | 2 ++
 4 files changed, 11 insertions(+)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index 75b7d6c..8a23557 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -60,6 +60,9 @@ inline void get_field (const T &f, std::ostream &os, const std::string &field_na
             break;
         }
     }
+
+    if (!os)
+        throw std::runtime_error ("Could not write the field values");
 }
 
 // Recenter a point cloud about its mean
diff --git a/spoc/header.h b/spoc/header.h
index 082ef98..1aadc9e 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -147,6 +147,8 @@ inline void write_header (std::ostream &s, const header &h)
     s.write (reinterpret_cast<const char*>(&h.total_points), sizeof(uint64_t));
     s.write (reinterpret_cast<const char*>(&h.compressed), sizeof(uint8_t));
     s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write the header");
 }
 
 /// I/O function
diff --git a/spoc/io.h b/spoc/io.h
index 5db083d..8c159e0 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -379,6 +379,10 @@ inline void write_spoc_file_compressed (std::ostream &s, const spoc::file::spoc_
 
     for (size_t j = 0; j < extras.size (); ++j)
         write_compressed (s, extras[j]);
+
+    s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write the compressed data");
 }
 
 /// Helper I/O function
diff --git a/spoc/point_record.h b/spoc/point_record.h
index a2c319d..308121b 100644
--- a/spoc/point_record.h
+++ b/spoc/point_record.h
@@ -142,6 +142,8 @@ inline void write_point_record (std::ostream &s, const point_record &p)
     if (p.extra.size () != 0)
         s.write (reinterpret_cast<const char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
     s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write a point record");
 }
 
 // Record I/O
-- 
2.43.0


From 8cbb9f7461865efd51fb5b8b102f845ec9dfc5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 07/27] fix: getting an extra field that does not exist reads
 out of bounds

---
 apps/tool/tool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index 8a23557..03d8185 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -54,7 +54,8 @@ inline void get_field (const T &f, std::ostream &os, const std::string &field_na
             case 'e': // extra
             {
                 assert (app_utils::is_extra_field (field_name));
-                assert (j < p.extra.size ());
+                if (j >= p.extra.size ())
+                    throw std::runtime_error ("The extra field does not exist: " + field_name);
                 os << p.extra[j] << std::endl;
             }
             break;
-- 
2.43.0


From 67d4d0dcef417dc61250def6b30cec161a4fe9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 08/27] fix: set-field mishandles the end of the field values
 and invalid values

The last value was rejected when no newline followed it, and text that is not
a number was silently taken for zeros.
---
 apps/tool/tool.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index 03d8185..b1cc468 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -172,9 +172,9 @@ inline T set_field (const T &f, std::istream &field_ifs, const std::string &fiel
         else
             field_ifs >> f_size_t[i];
 
-        // Make sure there are still values to read
-        if (field_ifs.eof ())
-            throw std::runtime_error ("Reached end-of-file before reading all field values");
+        // Make sure a value was read
+        if (!field_ifs)
+            throw std::runtime_error ("Could not read all field values");
     }
 
     // Copy points
-- 
2.43.0


From 28cae77af63ae89f82fff506ad8bf2ea83f816b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 09/27] fix: replace-not overwrites the classification instead
 of the given field

For fields p, i, r, g and b the replacement value was stored in c.
---
 apps/transform/transform.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index d043456..a4ae647 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -302,11 +302,11 @@ OP get_replace_not_op (const std::string &field_name,
             switch (field_name[0])
             {
                 case 'c': p.c = r; break;
-                case 'p': p.c = r; break;
-                case 'i': p.c = r; break;
-                case 'r': p.c = r; break;
-                case 'g': p.c = r; break;
-                case 'b': p.c = r; break;
+                case 'p': p.p = r; break;
+                case 'i': p.i = r; break;
+                case 'r': p.r = r; break;
+                case 'g': p.g = r; break;
+                case 'b': p.b = r; break;
                 case 'e': // extra
                 {
                     assert (is_extra_field (field_name));
-- 
2.43.0


From 555802598d0a694d7027d7b23f95242c517733e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 10/27] fix: spoc_transform rejects its documented noise
 options

The options were declared but not handled when parsing the command line.
---
 apps/transform/transform_cmd.h | 40 ++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/apps/transform/transform_cmd.h b/apps/transform/transform_cmd.h
index addd80c..bac135b 100644
--- a/apps/transform/transform_cmd.h
+++ b/apps/transform/transform_cmd.h
@@ -138,6 +138,26 @@ inline args get_args (int argc, char **argv, const std::string &usage)
                 args.commands.push_back (get_command ("copy-field", optarg));
                 break;
             }
+            case GAUSSIAN_NOISE:
+            {
+                args.commands.push_back (get_command ("gaussian-noise", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_X:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-x", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_Y:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-y", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_Z:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-z", optarg));
+                break;
+            }
             case QUANTIZE_XYZ:
             {
                 args.commands.push_back (get_command ("quantize-xyz", optarg));
@@ -193,6 +213,26 @@ inline args get_args (int argc, char **argv, const std::string &usage)
                 args.commands.push_back (get_command ("set", optarg));
                 break;
             }
+            case UNIFORM_NOISE:
+            {
+                args.commands.push_back (get_command ("uniform-noise", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_X:
+            {
+                args.commands.push_back (get_command ("uniform-noise-x", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_Y:
+            {
+                args.commands.push_back (get_command ("uniform-noise-y", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_Z:
+            {
+                args.commands.push_back (get_command ("uniform-noise-z", optarg));
+                break;
+            }
         }
     }
 
-- 
2.43.0


From df55181aa51cfd3590487efd0735918ff8f04150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 11/27] fix: spoc_transform rejects its documented -a option

---
 apps/transform/transform_cmd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/transform/transform_cmd.h b/apps/transform/transform_cmd.h
index bac135b..4b7acbc 100644
--- a/apps/transform/transform_cmd.h
+++ b/apps/transform/transform_cmd.h
@@ -100,7 +100,7 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             {0, 0, 0, 0}
         };
 
-        int c = getopt_long(argc, argv, "hve", long_options, &option_index);
+        int c = getopt_long(argc, argv, "hvea:", long_options, &option_index);
         if (c == -1)
             break;
 
-- 
2.43.0


From 1a33f12961ea3755207dc450ec88d9e73c55029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 12/27] fix: quantizing overflows an int for large coordinates
 or fine precisions

For example, 4200000 with a precision of 0.001 became -2147483.648.
---
 apps/transform/transform.h | 7 ++++---
 spoc/utils.h               | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index a4ae647..2d98d41 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -3,6 +3,7 @@
 #include "spoc/app_utils.h"
 #include "spoc/spoc.h"
 #include <cassert>
+#include <cmath>
 #include <iostream>
 #include <limits>
 #include <random>
@@ -172,9 +173,9 @@ OP get_quantize_op (const double precision)
     OP op = [=] (PR p)
     {
         // Quantize the point
-        p.x = static_cast<int> (p.x / precision) * precision;
-        p.y = static_cast<int> (p.y / precision) * precision;
-        p.z = static_cast<int> (p.z / precision) * precision;
+        p.x = std::trunc (p.x / precision) * precision;
+        p.y = std::trunc (p.y / precision) * precision;
+        p.z = std::trunc (p.z / precision) * precision;
         return p;
     };
 
diff --git a/spoc/utils.h b/spoc/utils.h
index e7f8d63..2adefc9 100644
--- a/spoc/utils.h
+++ b/spoc/utils.h
@@ -1,5 +1,6 @@
 #pragma once
 #include "contracts.h"
+#include <cmath>
 #include <functional>
 
 namespace spoc
@@ -44,9 +45,9 @@ void quantize (T &p, const double precision)
     for (size_t i = 0; i < p.size (); ++i)
     {
         // Quantize the point
-        p[i].x = static_cast<int> (p[i].x / precision) * precision;
-        p[i].y = static_cast<int> (p[i].y / precision) * precision;
-        p[i].z = static_cast<int> (p[i].z / precision) * precision;
+        p[i].x = std::trunc (p[i].x / precision) * precision;
+        p[i].y = std::trunc (p[i].y / precision) * precision;
+        p[i].z = std::trunc (p[i].z / precision) * precision;
     }
 }
 
-- 
2.43.0


From bd5f4614b13950a097819de08e1e72c4cfb775c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 13/27] fix: spoc_info --json prints "unknown type" for 32-bit
 fields

---
 spoc/json.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spoc/json.h b/spoc/json.h
index f681258..88e3b3e 100644
--- a/spoc/json.h
+++ b/spoc/json.h
@@ -20,6 +20,7 @@ namespace json
 //      char,
 //      uint8_t,
 //      uint16_t,
+//      uint32_t,
 //      uint64_t,
 //      float,
 //      double,
@@ -93,6 +94,10 @@ inline void pretty_print (std::ostream &s, const json::value &v, const int inden
     {
         s << std::any_cast<uint16_t> (v);
     }
+    else if (v.type () == typeid (uint32_t))
+    {
+        s << std::any_cast<uint32_t> (v);
+    }
     else if (v.type () == typeid (uint64_t))
     {
         s << std::any_cast<uint64_t> (v);
@@ -172,6 +177,8 @@ inline std::ostream &operator<< (std::ostream &s, const json::value &v)
         s << int (std::any_cast<uint8_t> (v));
     else if (v.type () == typeid (uint16_t))
         s << std::any_cast<uint16_t> (v);
+    else if (v.type () == typeid (uint32_t))
+        s << std::any_cast<uint32_t> (v);
     else if (v.type () == typeid (uint64_t))
         s << std::any_cast<uint64_t> (v);
     else if (v.type () == typeid (float))
-- 
2.43.0


From 24505448acacdba7587b02a3f1d3b0d007416691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 14/27] fix: spoc_info garbles classifications of 2^31 and
 above

---
 apps/info/info.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/info/info.h b/apps/info/info.h
index 4942653..eee4aec 100644
--- a/apps/info/info.h
+++ b/apps/info/info.h
@@ -15,7 +15,7 @@ namespace info_app
 template<typename T>
 inline std::map<std::string,size_t> get_class_count_map (const T &c)
 {
-    std::unordered_map<int,size_t> m;
+    std::unordered_map<typename T::value_type,size_t> m;
 
     // Count each classification
     //
@@ -323,7 +323,7 @@ inline void process (std::ostream &os,
 
             for (auto i : class_count_map)
             {
-                const auto j = std::stoi (i.first);
+                const auto j = std::stoul (i.first);
                 const auto l = class_map.find (j) == class_map.end ()
                     ? "undefined"
                     : class_map.at (j);
-- 
2.43.0


From e8c87a9643087f8abeb7cbd83d7fb64d44c31020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 15/27] fix: radius search misses neighbors when voxel indexes
 exceed an int

---
 spoc/radius_search.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/spoc/radius_search.h b/spoc/radius_search.h
index 686d84b..9742065 100644
--- a/spoc/radius_search.h
+++ b/spoc/radius_search.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstdint>
 #include <vector>
 
 #include "spoc/point_record.h"
@@ -39,16 +40,16 @@ class random_neighbor_selector
         , voxel_counts (total_voxels)
     {
         // Get the voxel indexes for the 27 voxels
-        const int i1 = static_cast<int> (ijk.i) - 1;
-        const int i2 = static_cast<int> (ijk.i) + 2;
-        const int j1 = static_cast<int> (ijk.j) - 1;
-        const int j2 = static_cast<int> (ijk.j) + 2;
-        const int k1 = static_cast<int> (ijk.k) - 1;
-        const int k2 = static_cast<int> (ijk.k) + 2;
+        const int64_t i1 = static_cast<int64_t> (ijk.i) - 1;
+        const int64_t i2 = static_cast<int64_t> (ijk.i) + 2;
+        const int64_t j1 = static_cast<int64_t> (ijk.j) - 1;
+        const int64_t j2 = static_cast<int64_t> (ijk.j) + 2;
+        const int64_t k1 = static_cast<int64_t> (ijk.k) - 1;
+        const int64_t k2 = static_cast<int64_t> (ijk.k) + 2;
         size_t n = 0;
-        for (int i = i1; i < i2; ++i)
-            for (int j = j1; j < j2; ++j)
-                for (int k = k1; k < k2; ++k)
+        for (int64_t i = i1; i < i2; ++i)
+            for (int64_t j = j1; j < j2; ++j)
+                for (int64_t k = k1; k < k2; ++k)
                     voxel_indexes[n++] = spoc::voxel::voxel_index (i, j, k);
 
         // There should have been 27
-- 
2.43.0


From 48f58dac3dea584d4b1c28ecccdc5dfb9cd27873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 16/27] fix: spoc_diff accepts mutually exclusive options

Giving two of header-only, data-only and specific fields was accepted, in spite
of the message that rejects more than one.
---
 apps/diff/diff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/diff/diff.cpp b/apps/diff/diff.cpp
index c349918..608d0cc 100644
--- a/apps/diff/diff.cpp
+++ b/apps/diff/diff.cpp
@@ -46,7 +46,7 @@ int main (int argc, char **argv)
             clog << "filename2\t'" << args.fn2 << "'" << endl;
         }
 
-        if (args.header_only + args.data_only + !args.fields.empty () > 2)
+        if (args.header_only + args.data_only + !args.fields.empty () > 1)
             throw runtime_error ("Can't specify more than 1 of 'header-only', 'data-only', and specific fields");
 
         if (args.verbose)
-- 
2.43.0


From cbdd541acf2b7bfc945ea98623ac728d90e8b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 17/27] fix: out-of-range indexes from Python access memory out
 of bounds

The library checks them with assert() and REQUIRE(), which do nothing in a
release build. The bindings now raise IndexError.
---
 spocpy/spocpy/spocpy.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/spocpy/spocpy/spocpy.cpp b/spocpy/spocpy/spocpy.cpp
index 3e40d8f..f8b986e 100644
--- a/spocpy/spocpy/spocpy.cpp
+++ b/spocpy/spocpy/spocpy.cpp
@@ -53,6 +53,27 @@ void py_writespocfile (const std::string &filename, const spoc::file::spoc_file
     return spoc::io::write_spoc_file (ofs, f);
 }
 
+spoc::point_record::point_record py_getpointrecord (const spoc::file::spoc_file &f, const size_t i)
+{
+    if (i >= f.get_point_records ().size ())
+        throw py::index_error ("Point record index out of range");
+    return f.get_point_record (i);
+}
+
+void py_setpointrecord (spoc::file::spoc_file &f, const size_t i, const spoc::point_record::point_record &p)
+{
+    if (i >= f.get_point_records ().size ())
+        throw py::index_error ("Point record index out of range");
+    f.set_point_record (i, p);
+}
+
+std::vector<uint64_t> py_getextra (const spoc::file::spoc_file &f, const size_t k)
+{
+    if (!f.get_point_records ().empty () && k >= f.get_extra_fields ())
+        throw py::index_error ("Extra field index out of range");
+    return f.get_extra (k);
+}
+
 //-------------------------
 // Python module definition
 //-------------------------
@@ -96,8 +117,8 @@ PYBIND11_MODULE(spocpy_cpp,m)
         .def("setWKT", &spoc::file::spoc_file::set_wkt)
         .def("getCompressed", &spoc::file::spoc_file::get_compressed)
         .def("setCompressed", &spoc::file::spoc_file::set_compressed)
-        .def("getPointRecord", &spoc::file::spoc_file::get_point_record)
-        .def("setPointRecord", &spoc::file::spoc_file::set_point_record)
+        .def("getPointRecord", &py_getpointrecord)
+        .def("setPointRecord", &py_setpointrecord)
         .def("getPointRecords", &spoc::file::spoc_file::get_point_records)
         .def("setPointRecords", &spoc::file::spoc_file::set_point_records)
         .def("getX", &spoc::file::spoc_file::get_x)
@@ -109,7 +130,7 @@ PYBIND11_MODULE(spocpy_cpp,m)
         .def("getR", &spoc::file::spoc_file::get_r)
         .def("getG", &spoc::file::spoc_file::get_g)
         .def("getB", &spoc::file::spoc_file::get_b)
-        .def("getExtra", &spoc::file::spoc_file::get_extra)
+        .def("getExtra", &py_getextra)
         ;
     m.def("readspocfile", &py_readspocfile, "Read a SPOC file");
     m.def("writespocfile", &py_writespocfile, "Write a SPOC file");
-- 
2.43.0


From 47c7eb1d3e65e72a487ed93ab7f4a42c513d7f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 18/27] fix: spoc_info and spoc_srs do not report write
 failures

---
 apps/info/info.h | 4 ++++
 apps/srs/srs.cpp | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/apps/info/info.h b/apps/info/info.h
index eee4aec..c607b99 100644
--- a/apps/info/info.h
+++ b/apps/info/info.h
@@ -350,6 +350,10 @@ inline void process (std::ostream &os,
             }
         }
     }
+
+    os.flush ();
+    if (!os)
+        throw std::runtime_error ("Could not write the information");
 }
 
 } // namespace info_app
diff --git a/apps/srs/srs.cpp b/apps/srs/srs.cpp
index 52b4ac4..8c64ed5 100644
--- a/apps/srs/srs.cpp
+++ b/apps/srs/srs.cpp
@@ -66,6 +66,9 @@ int main (int argc, char **argv)
                 auto h = read_header (cin);
 
                 cout << h.wkt << endl;
+
+                if (!cout)
+                    throw runtime_error ("Could not write the SRS");
             }
         }
         else if (args.set_srs)
@@ -114,6 +117,9 @@ int main (int argc, char **argv)
                 auto h = read_header (ifs);
 
                 cout << h.wkt << endl;
+
+                if (!cout)
+                    throw runtime_error ("Could not write the SRS");
             }
         }
 
-- 
2.43.0


From ce026de4f4c85a2a52215efc84c835c1db9f3d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:45 +0000
Subject: [PATCH 19/27] fix: incomplete zlib streams are decompressed without
 an error

The truncated output was returned as if it were the whole.
---
 spoc/compression.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/spoc/compression.h b/spoc/compression.h
index 2b4605e..88f03f5 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -158,6 +158,7 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
     inflator.s.avail_in = input.size ();
     inflator.s.next_in = const_cast<unsigned char *> (&input[0]);
 
+    bool done = false;
     do {
         inflator.s.avail_out = BUFFER_SIZE;
         inflator.s.next_out = &output_buffer[0];
@@ -170,6 +171,9 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
             case Z_MEM_ERROR:
                 throw std::runtime_error (zlib_error_string (ret));
             // GCOV_EXCL_STOP
+            case Z_STREAM_END:
+                done = true;
+            break;
         }
         const auto decompressed_bytes = BUFFER_SIZE - inflator.s.avail_out;
 
@@ -180,6 +184,11 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
             output_buffer.begin () + decompressed_bytes);
     } while (inflator.s.avail_out == 0);
 
+    // GCOV_EXCL_START
+    if (!done)
+        throw std::runtime_error (zlib_error_string (Z_DATA_ERROR));
+    // GCOV_EXCL_STOP
+
     return output;
 }
 
@@ -240,6 +249,11 @@ inline void decompress (std::istream &is, std::ostream &os)
             // GCOV_EXCL_STOP
         } while (inflator.s.avail_out == 0);
     } while (!done);
+
+    // GCOV_EXCL_START
+    if (!done)
+        throw std::runtime_error (zlib_error_string (Z_DATA_ERROR));
+    // GCOV_EXCL_STOP
 }
 
 } // namespace compression
-- 
2.43.0


From bdc1ecf05d9b5e730cdb25d7abf82343afe9958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:19 +0000
Subject: [PATCH 20/27] fix: field names with text after the extra field's
 number are accepted

---
 spoc/app_utils.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index eef04f2..4b1f99e 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -96,9 +96,14 @@ int get_extra_index (const std::string &f)
     e.erase (0, 1);
 
     // Convert to int
+    //
+    // All of it must be a number: 'stoi' would ignore what follows it
     int n;
-    try { n = stoi (e); }
+    size_t sz = 0;
+    try { n = stoi (e, &sz); }
     catch (...) { return -1; }
+    if (sz != e.size () || !isdigit (static_cast<unsigned char> (e[0])))
+        return -1;
     return n;
 }
 
-- 
2.43.0


From 80608ab9afde8c63a9077339d59d3571c9f25151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:49 +0000
Subject: [PATCH 21/27] fix: spoc_diff --version fails unless two files are
 given

---
 apps/diff/diff_cmd.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/diff/diff_cmd.h b/apps/diff/diff_cmd.h
index ed73ba7..77d2496 100644
--- a/apps/diff/diff_cmd.h
+++ b/apps/diff/diff_cmd.h
@@ -72,6 +72,10 @@ inline args get_args (int argc, char **argv, const std::string &usage)
         }
     }
 
+    // Printing the version does not require any filenames
+    if (args.version)
+        return args;
+
     // Get input filenames
     if (optind == argc)
         throw std::runtime_error ("No input filename 1 was specified");
-- 
2.43.0


From d656c679edb6cd1a4e90455ec6e2182b6a5e0680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:42 +0000
Subject: [PATCH 22/27] fix: compressing a stream that cannot be read ends with
 an error

---
 spoc/compression.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spoc/compression.h b/spoc/compression.h
index 88f03f5..a2dbb0c 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -126,6 +126,11 @@ inline void compress (std::istream &is, std::ostream &os, const int level)
     do {
         // Read into buffer from stream
         is.read (reinterpret_cast<char *> (&input_buffer[0]), BUFFER_SIZE);
+
+        // A stream that fails before its end never gets there
+        if (is.fail () && !is.eof ())
+            throw std::runtime_error (zlib_error_string (Z_ERRNO));
+
         deflator.s.avail_in = is.gcount();
         deflator.s.next_in = &input_buffer[0];
 
-- 
2.43.0


From 69aaff2a2d344635d85c8764c478d78727d6bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:22 +0000
Subject: [PATCH 23/27] fix: compressed data of 4 GiB and more is cut short

---
 spoc/compression.h | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/spoc/compression.h b/spoc/compression.h
index a2dbb0c..3969141 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -90,14 +90,24 @@ inline std::vector<uint8_t> compress (const uint8_t *p, const size_t nbytes, con
     zlib_deflator deflator (level);
 
     // Get bytes directly from the input vector
-    deflator.s.avail_in = nbytes;
+    //
+    // zlib counts them in 32 bits, so there may be more than it takes at once
+    constexpr size_t MAX_AVAIL_IN = (1 << 30);
+    size_t remaining = nbytes;
     deflator.s.next_in = const_cast<unsigned char *> (p);
 
     do {
+        // Provide more input
+        if (deflator.s.avail_in == 0)
+        {
+            deflator.s.avail_in = remaining < MAX_AVAIL_IN ? remaining : MAX_AVAIL_IN;
+            remaining -= deflator.s.avail_in;
+        }
+
         // Compress from input to output buffer
         deflator.s.avail_out = BUFFER_SIZE;
         deflator.s.next_out = &output_buffer[0];
-        deflate (&deflator.s, Z_FINISH);
+        deflate (&deflator.s, remaining == 0 ? Z_FINISH : Z_NO_FLUSH);
         const auto compressed_bytes = BUFFER_SIZE - deflator.s.avail_out;
 
         // Save compressed bytes
@@ -105,7 +115,7 @@ inline std::vector<uint8_t> compress (const uint8_t *p, const size_t nbytes, con
         output.insert (output.end (),
             output_buffer.begin (),
             output_buffer.begin () + compressed_bytes);
-    } while (deflator.s.avail_out == 0);
+    } while (deflator.s.avail_out == 0 || remaining != 0);
 
     return output;
 }
@@ -160,11 +170,21 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
     zlib_inflator inflator;
 
     // Get bytes directory from input vector
-    inflator.s.avail_in = input.size ();
+    //
+    // zlib counts them in 32 bits, so there may be more than it takes at once
+    constexpr size_t MAX_AVAIL_IN = (1 << 30);
+    size_t remaining = input.size ();
     inflator.s.next_in = const_cast<unsigned char *> (&input[0]);
 
     bool done = false;
     do {
+        // Provide more input
+        if (inflator.s.avail_in == 0)
+        {
+            inflator.s.avail_in = remaining < MAX_AVAIL_IN ? remaining : MAX_AVAIL_IN;
+            remaining -= inflator.s.avail_in;
+        }
+
         inflator.s.avail_out = BUFFER_SIZE;
         inflator.s.next_out = &output_buffer[0];
         const auto ret = inflate (&inflator.s, Z_NO_FLUSH);
@@ -187,7 +207,7 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
         output.insert (output.end (),
             output_buffer.begin (),
             output_buffer.begin () + decompressed_bytes);
-    } while (inflator.s.avail_out == 0);
+    } while (inflator.s.avail_out == 0 || (!done && inflator.s.avail_in == 0 && remaining != 0));
 
     // GCOV_EXCL_START
     if (!done)
-- 
2.43.0


From 303e6e5790fbb1e0103dfdd228b3984820804070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:27 +0000
Subject: [PATCH 24/27] fix: adding a point of a container to its points adds
 it doubled to those behind it

---
 spoc/affine.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/spoc/affine.h b/spoc/affine.h
index 932457f..f5ff998 100644
--- a/spoc/affine.h
+++ b/spoc/affine.h
@@ -39,12 +39,17 @@ void add_z (T &p, const double v)
 template<typename T>
 void add (T &p, const typename T::value_type &v)
 {
+    // The offset may be one of the points, which must not change it
+    const double x = v.x;
+    const double y = v.y;
+    const double z = v.z;
+
 #pragma omp parallel for
     for (size_t i = 0; i < p.size (); ++i)
     {
-        p[i].x += v.x;
-        p[i].y += v.y;
-        p[i].z += v.z;
+        p[i].x += x;
+        p[i].y += y;
+        p[i].z += z;
     }
 }
 
-- 
2.43.0


From 0173c3cf48a1327f29b63b5153b217a10dc1d3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:24 +0000
Subject: [PATCH 25/27] fix: resizing extra fields leaves records of different
 sizes when memory runs out

---
 spoc/file.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spoc/file.h b/spoc/file.h
index 3b49184..b7da69c 100644
--- a/spoc/file.h
+++ b/spoc/file.h
@@ -178,6 +178,9 @@ class spoc_file
     /// fields in all point records must be resized
     void resize_extra_fields (const size_t extra_fields)
     {
+        // Get the memory first, so that either all of them change or none
+        for (auto &p : prs)
+            p.extra.reserve (extra_fields);
         for (auto &p : prs)
             p.extra.resize (extra_fields);
     }
-- 
2.43.0


From a456a0df9bf3052f9d0343ac1cb43cf78ceb9cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:24 +0000
Subject: [PATCH 26/27] fix: setting point records leaves some of the old ones
 when memory runs out

---
 spoc/file.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spoc/file.h b/spoc/file.h
index b7da69c..269d46a 100644
--- a/spoc/file.h
+++ b/spoc/file.h
@@ -226,7 +226,10 @@ class spoc_file
             throw std::runtime_error ("The point record extra fields have inconsistent sizes");
 
         // Set the point records
-        this->prs = prs;
+        //
+        // Copy them first, so that either all of them change or none
+        point_record::point_records tmp (prs);
+        this->prs.swap (tmp);
     }
 
     /// @brief Move point records from the spoc_file object
-- 
2.43.0


From 05f037ae0661f8b8bfbaab4216737fa5034f8d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:32 +0000
Subject: [PATCH 27/27] fix: make the functions in library headers inline

Two translation units of one program could not both include app_utils.h,
asprs.h, cmd.h or extent.h: the linker found the functions there defined
twice.
---
 spoc/app_utils.h | 14 +++++++-------
 spoc/asprs.h     |  2 +-
 spoc/cmd.h       |  2 +-
 spoc/extent.h    |  6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index 4b1f99e..75cdf01 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -78,13 +78,13 @@ class output_stream
 
 const std::unordered_set<std::string> field_strings {"x", "y", "z", "c", "p", "i", "r", "g", "b"};
 
-bool is_extra_field (const std::string &f)
+inline bool is_extra_field (const std::string &f)
 {
     // The field name should look like 'e#'
     return f[0] == 'e';
 }
 
-int get_extra_index (const std::string &f)
+inline int get_extra_index (const std::string &f)
 {
     if (!is_extra_field (f))
         return -1;
@@ -107,7 +107,7 @@ int get_extra_index (const std::string &f)
     return n;
 }
 
-bool check_field_name (const std::string &f)
+inline bool check_field_name (const std::string &f)
 {
     // Does it match a string?
     if (field_strings.find (f) != field_strings.end ())
@@ -125,7 +125,7 @@ bool check_field_name (const std::string &f)
     return false;
 }
 
-std::string consume_field_name (std::string &s)
+inline std::string consume_field_name (std::string &s)
 {
     // Check string
     assert (!s.empty ());
@@ -151,7 +151,7 @@ std::string consume_field_name (std::string &s)
     return field_name;
 }
 
-unsigned consume_int (std::string &s)
+inline unsigned consume_int (std::string &s)
 {
     size_t sz = 0;
     unsigned v = 0;
@@ -161,7 +161,7 @@ unsigned consume_int (std::string &s)
     return v;
 }
 
-std::vector<unsigned> consume_ints (std::string &s)
+inline std::vector<unsigned> consume_ints (std::string &s)
 {
     std::vector<unsigned> vs;
     // Get the first one
@@ -177,7 +177,7 @@ std::vector<unsigned> consume_ints (std::string &s)
     return vs;
 }
 
-double consume_double (std::string &s)
+inline double consume_double (std::string &s)
 {
     size_t sz = 0;
     double v = 0.0;
diff --git a/spoc/asprs.h b/spoc/asprs.h
index 3412608..ffbb4aa 100644
--- a/spoc/asprs.h
+++ b/spoc/asprs.h
@@ -38,7 +38,7 @@ enum class point_class
     exclusion = 22,
 };
 
-std::unordered_map<int,std::string> get_asprs_class_map ()
+inline std::unordered_map<int,std::string> get_asprs_class_map ()
 {
     std::unordered_map<int,std::string> m;
     m[0] = "unclassified";
diff --git a/spoc/cmd.h b/spoc/cmd.h
index cc8914f..22c70a2 100644
--- a/spoc/cmd.h
+++ b/spoc/cmd.h
@@ -11,7 +11,7 @@ namespace spoc
 namespace cmd
 {
 
-void print_help (std::ostream &os, const std::string &usage, const size_t noptions, option long_options[])
+inline void print_help (std::ostream &os, const std::string &usage, const size_t noptions, option long_options[])
 {
     // Check preconditions
     REQUIRE (os.good ());
diff --git a/spoc/extent.h b/spoc/extent.h
index 7e8c762..c6f861f 100644
--- a/spoc/extent.h
+++ b/spoc/extent.h
@@ -18,14 +18,14 @@ struct extent
     spoc::point::point<double> maxp;
 };
 
-double get_volume (const extent &e)
+inline double get_volume (const extent &e)
 {
     return (e.maxp.x - e.minp.x)
         * (e.maxp.y - e.minp.y)
         * (e.maxp.z - e.minp.z);
 }
 
-double get_area (const extent &e)
+inline double get_area (const extent &e)
 {
     return (e.maxp.x - e.minp.x)
         * (e.maxp.y - e.minp.y);
@@ -61,7 +61,7 @@ inline bool all_less_equal (const spoc::point::point<double> &a, const spoc::poi
     return true;
 }
 
-extent get_total_extent(const extent &e1, const extent &e2)
+inline extent get_total_extent(const extent &e1, const extent &e2)
 {
     spoc::point::point<double> minp { std::numeric_limits<double>::max (),
             std::numeric_limits<double>::max (),
-- 
2.43.0

