From 60ce6876ab101bee051df56657429d33e5924964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 01/29] fix: iterators returned a wrong record after another
 iterator had refilled the buffer

flat_file::database::const_iterator kept a pointer into the shared buffer. Once another
iterator of the same db moved the buffer window, dereferencing the first one again gave
whatever record was then at that place. hibp-diff hit this at every buffer boundary.
---
 include/flat_file.hpp | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 72e12d6..151fbda 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -170,7 +170,7 @@ struct database<ValueType>::const_iterator {
 
   // clang-format off
   reference operator*() const { return current(); }
-  pointer   operator->() const { current(); return cur_; }
+  pointer   operator->() const { return &current(); }
 
   bool operator==(const const_iterator& other) const { return ffdb_ == other.ffdb_ && pos_ == other.pos_; }
   
@@ -179,8 +179,8 @@ struct database<ValueType>::const_iterator {
   const_iterator& operator--() { return *this -= 1; }
   const_iterator operator--(int) { const_iterator tmp = *this; --(*this); return tmp; } // NOLINT why const?
 
-  const_iterator& operator+=(std::size_t offset) { set_pos(pos_ + offset); return *this; }
-  const_iterator& operator-=(std::size_t offset) { set_pos(pos_ - offset); return *this; }
+  const_iterator& operator+=(std::size_t offset) { pos_ += offset; return *this; }
+  const_iterator& operator-=(std::size_t offset) { pos_ -= offset; return *this; }
 
   friend const_iterator operator+(const_iterator iter, std::size_t offset) { return iter += offset; }
   friend const_iterator operator+(std::size_t offset, const_iterator iter) { return iter += offset; }
@@ -196,22 +196,10 @@ struct database<ValueType>::const_iterator {
 private:
   database*   ffdb_ = nullptr;
   std::size_t pos_{};
-  // cur_ and cur_valid_ are mutable so that operator* can be const
-  mutable const value_type* cur_;
-  mutable bool              cur_valid_ = false;
 
-  void set_pos(std::size_t pos) {
-    pos_       = pos;
-    cur_valid_ = false;
-  }
-
-  reference current() const {
-    if (!cur_valid_) {
-      cur_       = &ffdb_->get_record(pos_);
-      cur_valid_ = true;
-    }
-    return *cur_;
-  }
+  // don't cache a pointer into the buffer of the db here: any other iterator may have caused that
+  // buffer to be refilled since. get_record() is cheap when the record is still in the buffer.
+  reference current() const { return ffdb_->get_record(pos_); }
 };
 
 template <typename ValueType, typename Comp = std::less<>, typename Proj = std::identity>
-- 
2.43.0


From 48c3153a58c398f82dbedec606b2d4f99fd7925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 02/29] fix: a failed read left a half overwritten buffer
 marked as valid

and the stream in a failed state, so later reads returned wrong records or kept failing.
---
 include/flat_file.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 151fbda..b22de90 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -124,6 +124,8 @@ public:
         throw std::runtime_error(
             "flat_file:get_record cannot return data, are you dereferencing db.end()?");
       }
+      buf_start_ = buf_end_ = 0; // nothing valid in buffer, until read() below has succeeded
+      db_.clear();               // an earlier failed read must not prevent this one
       db_.seekg(static_cast<std::streamoff>(pos * sizeof(ValueType)));
 
       db_.read(reinterpret_cast<char*>(buf_.data()), // NOLINT reinterpret_cast
-- 
2.43.0


From d75df1263ed752081ac11ce60e45b914464bce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 03/29] fix: hibp-diff refused adjacent insertions and an
 insertion before an update

It only recognised an insertion if the very next record of NEW was equal to OLD, and
reported anything else as 'Replacement implies deletion'. Both dbs are sorted, so
compare the hashes instead.
---
 src/diffutils.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/diffutils.cpp b/src/diffutils.cpp
index 4a6c34e..9e57b2a 100644
--- a/src/diffutils.cpp
+++ b/src/diffutils.cpp
@@ -56,13 +56,11 @@ void run_diff(const std::filesystem::path& old_path, const std::filesystem::path
     }
     // fine to dereference both
 
-    if (std::next(diff_iter_old) != db_old.end() &&
-        deep_equals(*std::next(diff_iter_old), *diff_iter_new)) {
+    // both dbs are sorted by hash
+    if (*diff_iter_old < *diff_iter_new) {
       throw std::runtime_error("Deletion from OLD");
     }
-    // fine to dereference std::next(new)
-    if (std::next(diff_iter_new) != db_new.end() &&
-        deep_equals(*diff_iter_old, *std::next(diff_iter_new))) {
+    if (*diff_iter_new < *diff_iter_old) {
       const hunk h{hunk_type::insert, static_cast<unsigned>(diff_iter_old - db_old.begin()),
              *diff_iter_new};
       diff << h << '\n';
@@ -70,9 +68,7 @@ void run_diff(const std::filesystem::path& old_path, const std::filesystem::path
       new_begin = diff_iter_new + 1;
       continue;
     }
-    if (*diff_iter_old != *diff_iter_new) { // comparing hash only
-      throw std::runtime_error("Replacement implies deletion");
-    }
+    // same hash, different count
     const hunk h{hunk_type::update, static_cast<unsigned>(diff_iter_old - db_old.begin()),
            *diff_iter_new};
     diff << h << '\n';
-- 
2.43.0


From 4529d4684ff185de081a8027d26e9c24f79b1abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 04/29] fix: hibp-sort divided by zero for an empty db or
 --max-memory 0

---
 include/flat_file.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index b22de90..9406f2c 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -211,9 +211,16 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
                                           std::size_t max_memory_usage = 1'000'000'000) {
 
   auto        records_to_sort = static_cast<std::size_t>(last - first);
-  std::size_t chunk_size      = std::min(records_to_sort, max_memory_usage / sizeof(ValueType));
-  std::size_t number_of_chunks =
-      (records_to_sort / chunk_size) + static_cast<std::size_t>(records_to_sort % chunk_size != 0);
+  std::size_t max_chunk_size  = max_memory_usage / sizeof(ValueType);
+  if (max_chunk_size == 0) {
+    throw std::runtime_error("max memory usage is too small to sort even one record");
+  }
+  std::size_t chunk_size       = std::min(records_to_sort, max_chunk_size);
+  std::size_t number_of_chunks = 1; // an empty db is sorted into one empty chunk
+  if (chunk_size != 0) {
+    number_of_chunks =
+        (records_to_sort / chunk_size) + static_cast<std::size_t>(records_to_sort % chunk_size != 0);
+  }
 
   std::cerr << fmt::format("{:20s} = {:12d}\n", "max memory usage", max_memory_usage);
   std::cerr << fmt::format("{:20s} = {:12d}\n", "records to sort", records_to_sort);
-- 
2.43.0


From 49816b33588538c32d6c5939f54063cbc04a2099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 05/29] fix: hibp-sort used a quoted path to build the names of
 its files

fmt formats a std::filesystem::path in quotes (before fmt 10), so that sorting
/some/path/db.bin tried to write to '"/some/path/db.bin".sorted' and failed.
---
 include/flat_file.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 9406f2c..d7ed79c 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -230,7 +230,7 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
   std::vector<std::string> chunk_filenames;
   chunk_filenames.reserve(number_of_chunks);
   for (std::size_t chunk = 0; chunk != number_of_chunks; ++chunk) {
-    std::string chunk_filename = fmt::format("{}.partial.{:04d}", first.filename(), chunk);
+    std::string chunk_filename = fmt::format("{}.partial.{:04d}", first.filename().string(), chunk);
     chunk_filenames.push_back(chunk_filename);
 
     std::size_t start = chunk * chunk_size;
@@ -315,7 +315,7 @@ std::string disksort_range(typename database<ValueType>::const_iterator first,
   std::vector<std::string> chunk_filenames =
       sort_into_chunks<ValueType>(first, last, comp, proj, max_memory_usage);
 
-  std::string sorted_filename = fmt::format("{}.sorted", first.filename());
+  std::string sorted_filename = fmt::format("{}.sorted", first.filename().string());
 
   if (chunk_filenames.size() == 1) {
     std::filesystem::rename(chunk_filenames[0], sorted_filename);
-- 
2.43.0


From a19556cf4cf7bec51839fefaffdaff2f435364a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 06/29] fix: hibp-convert --bin-to-txt --limit 0 converted all
 records instead of none

---
 app/hibp_convert.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index 0ea2dfb..eb19448 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -96,10 +96,8 @@ void bin_to_txt(const std::string& input_filename, std::ostream& output_stream,
   flat_file::database<PwType> db{input_filename, 4096 / sizeof(PwType)};
 
   std::size_t count = 0;
-  for (const auto& record: db) {
-    output_stream << record << '\n';
-    count++;
-    if (count == limit) break;
+  for (auto iter = db.begin(); iter != db.end() && count != limit; ++iter, ++count) {
+    output_stream << *iter << '\n';
   }
 }
 
-- 
2.43.0


From 9daebc182d63d6edcdc0fac7db12499fca2c663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 07/29] fix: hibp-topn --stdout mixed its progress messages
 into the db

---
 app/hibp_topn.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index fef4656..04ed005 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -90,7 +90,10 @@ void build_topn(const cli_config_t& cli) {
   }
   std::vector<PwType> memdb(cli.topn);
 
-  std::cout << fmt::format("{:50}", "Read db from disk and topN sort by count desc ...");
+  // don't mix messages into the db
+  std::ostream& msgs = cli.standard_output ? std::cerr : std::cout;
+
+  msgs << fmt::format("{:50}", "Read db from disk and topN sort by count desc ...");
 
   using clk   = std::chrono::high_resolution_clock;
   using fsecs = std::chrono::duration<double>;
@@ -105,9 +108,9 @@ void build_topn(const cli_config_t& cli) {
                            return a.count > b.count;
                          });
 
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  msgs << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 
-  std::cout << fmt::format("{:50}", "Sort by hash ascending ...");
+  msgs << fmt::format("{:50}", "Sort by hash ascending ...");
   start = clk::now();
   // default sort by hash ascending
   std::sort(
@@ -115,15 +118,15 @@ void build_topn(const cli_config_t& cli) {
       std::execution::par_unseq,
 #endif
       memdb.begin(), memdb.end());
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  msgs << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 
   start = clk::now();
-  std::cout << fmt::format("{:50}", "Write TopN db to disk ...");
+  msgs << fmt::format("{:50}", "Write TopN db to disk ...");
   auto output_db = flat_file::stream_writer<PwType>(*output_stream);
   for (const auto& pw: memdb) {
     output_db.write(pw);
   }
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  msgs << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 }
 
 int main(int argc, char* argv[]) {
-- 
2.43.0


From d61e5154fbcbdc3edcdf2a807a6a5dd50e42e53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 08/29] fix: success was reported although the output could not
 be written

Buffers that are only flushed by destructors lose their write errors. Flush
explicitly and check the result in hibp-download (binary and text), hibp-convert,
hibp-topn, hibp-sort and hibp-diff.
---
 app/hibp_convert.cpp     |  8 ++++++--
 app/hibp_download.cpp    |  6 ++++++
 app/hibp_topn.cpp        |  1 +
 include/dnl/queuemgt.hpp |  4 +++-
 include/flat_file.hpp    | 14 +++++++++-----
 src/diffutils.cpp        |  3 +++
 6 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index eb19448..2f358fe 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -88,6 +88,7 @@ void txt_to_bin(std::istream& input_stream, std::ostream& output_stream, std::si
   for (std::string line; std::getline(input_stream, line) && count != limit; count++) {
     writer.write(PwType{line});
   }
+  writer.flush(); // the destructor cannot report errors
 }
 
 template <hibp::pw_type PwType>
@@ -154,7 +155,6 @@ void convert(const cli_config_t& cli) {
     } else {
       txt_to_bin<hibp::pawned_pw_sha1>(*input_stream, *output_stream, cli.limit);
     }
-    std::cerr << "Done.\n";
   } else if (cli.bin_to_txt) {
 
     std::cerr << fmt::format("Reading `have i been pawned` binary database from {}, "
@@ -166,8 +166,12 @@ void convert(const cli_config_t& cli) {
     } else {
       bin_to_txt<hibp::pawned_pw_sha1>(cli.input_filename, *output_stream, cli.limit);
     }
-    std::cerr << "Done.\n";
   }
+
+  if (!output_stream->flush()) {
+    throw std::runtime_error(fmt::format("Error writing to '{}'.", output_stream_name));
+  }
+  std::cerr << "Done.\n";
 }
 
 int main(int argc, char* argv[]) {
diff --git a/app/hibp_download.cpp b/app/hibp_download.cpp
index 8bbc98e..b4a3344 100644
--- a/app/hibp_download.cpp
+++ b/app/hibp_download.cpp
@@ -65,6 +65,7 @@ void launch(std::ofstream& output_db_stream, const hibp::dnl::cli_config_t& cli,
   auto ffsw = flat_file::stream_writer<PwType>(output_db_stream, 10'000);
   hibp::dnl::run([&](const std::string& line) { ffsw.write(PwType{line}); }, start_index,
                  cli.testing);
+  ffsw.flush(); // the destructor cannot report errors
 }
 
 template <hibp::pw_type PwType>
@@ -147,6 +148,11 @@ int main(int argc, char* argv[]) {
       }
     }
 
+    output_db_stream.close(); // writes what is still buffered, so check the result
+    if (!output_db_stream) {
+      throw std::runtime_error(fmt::format("Error writing to '{}'.\n", cli.output_db_filename));
+    }
+
   } catch (const std::exception& e) {
     std::cerr << fmt::format("Error: {}\n", e.what());
     return EXIT_FAILURE;
diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index 04ed005..600ecca 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -126,6 +126,7 @@ void build_topn(const cli_config_t& cli) {
   for (const auto& pw: memdb) {
     output_db.write(pw);
   }
+  output_db.flush(true); // the destructors cannot report errors
   msgs << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 }
 
diff --git a/include/dnl/queuemgt.hpp b/include/dnl/queuemgt.hpp
index 3faae13..f8d6b32 100644
--- a/include/dnl/queuemgt.hpp
+++ b/include/dnl/queuemgt.hpp
@@ -10,7 +10,9 @@ namespace hibp::dnl {
 // alternative simple text writer
 
 struct text_writer {
-  explicit text_writer(std::ostream& os) : os_(os) {}
+  explicit text_writer(std::ostream& os) : os_(os) {
+    os_.exceptions(std::ios::badbit | std::ios::failbit); // don't continue after a write error
+  }
   void write(const std::string& line) {
     os_.write(line.c_str(), static_cast<std::streamsize>(line.length()));
     os_.write("\n", 1);
diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index d7ed79c..fadd42d 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -54,12 +54,13 @@ public:
 
   void flush(bool flush_stream = false) {
     if (buf_pos_ != 0) {
+      // if the write fails and throws, the destructor must not write the same records again
+      const auto nrecs = std::exchange(buf_pos_, 0);
       db_.write(reinterpret_cast<char*>(buf_.data()), // NOLINT reincast
-                static_cast<std::streamsize>(sizeof(ValueType) * buf_pos_));
-      buf_pos_ = 0;
-      if (flush_stream) {
-        db_.flush();
-      }
+                static_cast<std::streamsize>(sizeof(ValueType) * nrecs));
+    }
+    if (flush_stream) {
+      db_.flush();
     }
   }
 
@@ -250,6 +251,7 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
         });
     auto part = file_writer<ValueType>(chunk_filename);
     for (const auto& obj: objs) part.write(obj);
+    part.flush(true); // the destructors cannot report errors
   }
   return chunk_filenames;
 }
@@ -304,6 +306,8 @@ void merge_sorted_chunks(const std::vector<std::string>& chunk_filenames,
     }
   }
 
+  sorted.flush(true); // the destructors cannot report errors
+
   for (const auto& filename: chunk_filenames) std::filesystem::remove(filename);
 }
 
diff --git a/src/diffutils.cpp b/src/diffutils.cpp
index 9e57b2a..b515f88 100644
--- a/src/diffutils.cpp
+++ b/src/diffutils.cpp
@@ -75,6 +75,9 @@ void run_diff(const std::filesystem::path& old_path, const std::filesystem::path
     old_begin = diff_iter_old + 1;
     new_begin = diff_iter_new + 1;
   }
+  if (!diff.flush()) {
+    throw std::runtime_error("Could not write the diff");
+  }
 }
 
 template void run_diff<hibp::pawned_pw_sha1>(const std::filesystem::path& old_path,
-- 
2.43.0


From b2880d8c17dc455487ba4efbcad4bbf7d430641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 09/29] fix: the server looked up the percent-encoded form of a
 plain password

---
 src/srv/server.cpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index 41e932b..c1bf729 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -5,6 +5,7 @@
 #include "toc.hpp"
 #include <algorithm>
 #include <atomic>
+#include <charconv>
 #include <cstdlib>
 #include <exception>
 #include <fmt/format.h>
@@ -17,6 +18,7 @@
 #include <restinio/traits.hpp>
 #include <sha1.h>
 #include <string>
+#include <string_view>
 #include <type_traits>
 #include <utility>
 
@@ -60,6 +62,27 @@ auto fail_missing_db_for_format(auto req, const std::string& option, const std::
   return bad_request("You need to pass " + option + " for a " + endpoint + " request.", req);
 }
 
+// a password in an url is percent-encoded, if it contains reserved or non-ascii characters.
+// A '%' which is not followed by 2 hex digits is taken literally.
+std::string percent_decode(std::string_view encoded) {
+  std::string decoded;
+  decoded.reserve(encoded.size());
+  while (!encoded.empty()) {
+    unsigned char value = 0;
+    if (encoded.size() >= 3 && encoded[0] == '%') {
+      const char* first = encoded.data() + 1;
+      if (std::from_chars(first, first + 2, value, 16).ptr == first + 2) {
+        decoded.push_back(static_cast<char>(value));
+        encoded.remove_prefix(3);
+        continue;
+      }
+    }
+    decoded.push_back(encoded[0]);
+    encoded.remove_prefix(1);
+  }
+  return decoded;
+}
+
 template <pw_type PwType>
 auto handle_plain_search(flat_file::database<PwType>& sha1_db, std::string plain_password,
                          auto req) {
@@ -117,14 +140,15 @@ auto get_router(const std::string& sha1_db_filename, const std::string& ntlm_db_
       const std::string password{params["password"]};
 
       if (params["format"] == "plain") {
+        const std::string plain_password = percent_decode(password);
         if (sha1_db) {
-          return handle_plain_search(*sha1_db, password, req);
+          return handle_plain_search(*sha1_db, plain_password, req);
         }
         if (ntlm_db) {
-          return handle_plain_search(*ntlm_db, password, req);
+          return handle_plain_search(*ntlm_db, plain_password, req);
         }
         if (sha1t64_db) {
-          return handle_plain_search(*sha1t64_db, password, req);
+          return handle_plain_search(*sha1t64_db, plain_password, req);
         }
         return fail_missing_db_for_format(req, "--sha1-db, --sha1t64-db or --ntlm-db",
                                           "/check/plain");
-- 
2.43.0


From a44563379caf4537de77fd2ea7298b2480c48216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 10/29] fix: hibp-download reported success for --parallel-max
 0 without downloading anything

---
 src/dnl/requests.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dnl/requests.cpp b/src/dnl/requests.cpp
index 76f281d..be6055d 100644
--- a/src/dnl/requests.cpp
+++ b/src/dnl/requests.cpp
@@ -297,6 +297,9 @@ void run_event_loop(std::size_t start_index, bool testing_, std::stop_token stok
   req::stoken = std::move(stoken);
   event_base_dispatch(req::ebase);
   logger.log("event_base_dispatch() completed");
+  if (req::next_index != cli.index_limit || !req::download_slots.empty()) {
+    throw std::runtime_error("event loop ended before all files were downloaded");
+  }
   finished_downloads();
 }
 
-- 
2.43.0


From cbfbfa0446ed7c5b793085ef0e4660c214b8b8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 11/29] fix: --resume failed for a download which was
 interrupted before its first record

---
 src/dnl/resume.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dnl/resume.cpp b/src/dnl/resume.cpp
index d31a6be..f269cec 100644
--- a/src/dnl/resume.cpp
+++ b/src/dnl/resume.cpp
@@ -27,6 +27,10 @@ std::size_t get_last_prefix(const std::string& filename, bool testing) {
 
   flat_file::database<PwType> db(filename);
 
+  if (db.number_records() == 0) {
+    return static_cast<std::size_t>(-1); // nothing there yet, so caller will start with file 0
+  }
+
   const auto& last_db_ppw = db.back();
 
   std::stringstream ss;
-- 
2.43.0


From f81e25396409ddfd330d7148bdb98be935496202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 12/29] fix: --resume duplicated a record if the truncated hash
 at the start of a file is not unique

---
 src/dnl/resume.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dnl/resume.cpp b/src/dnl/resume.cpp
index f269cec..fd7725a 100644
--- a/src/dnl/resume.cpp
+++ b/src/dnl/resume.cpp
@@ -71,6 +71,10 @@ std::size_t get_last_prefix(const std::string& filename, bool testing) {
     throw std::runtime_error(
         "Not found at all, sorry you will need to start afresh without `--resume`.\n");
   }
+  // truncated hashes are not always unique: continue to the first one of several equal records
+  while (std::next(found_iter) != rend && *std::next(found_iter) == needle) {
+    ++found_iter;
+  }
 
   auto trimmed_file_size = static_cast<std::size_t>(rend - found_iter - 1) * sizeof(PwType);
   std::cerr << fmt::format("found: trimming file to {}.\n", trimmed_file_size);
-- 
2.43.0


From 5e6598c281277a0991adcddea78ecca50a16e37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 13/29] fix: --resume took the body of an http error response
 for the last prefix file

---
 src/dnl/requests.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dnl/requests.cpp b/src/dnl/requests.cpp
index be6055d..b152cdc 100644
--- a/src/dnl/requests.cpp
+++ b/src/dnl/requests.cpp
@@ -271,6 +271,13 @@ std::string curl_sync_get(const std::string& url) {
     throw std::runtime_error(fmt::format("curl_sync_get: Couldn't retrieve '{}'. Error: {}", url,
                                          curl_easy_strerror(res)));
   }
+  long response_code = 0;
+  curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &response_code);
+  if (response_code != 200) { // don't mistake an error page for a prefix file
+    curl_easy_cleanup(curl);
+    throw std::runtime_error(fmt::format(
+        "curl_sync_get: Couldn't retrieve '{}'. http resp code: {}", url, response_code));
+  }
 
   curl_easy_cleanup(curl);
   return result_body;
-- 
2.43.0


From 54e8907df888118a78dfbcef997f420cb41459e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 14/29] fix: hibp-download requested prefix 100000 and beyond
 for a --limit above 0x100000

---
 app/hibp_download.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/hibp_download.cpp b/app/hibp_download.cpp
index b4a3344..7be8ce4 100644
--- a/app/hibp_download.cpp
+++ b/app/hibp_download.cpp
@@ -4,6 +4,7 @@
 #include "flat_file.hpp"
 #include "hibp.hpp"
 #include <CLI/CLI.hpp>
+#include <algorithm>
 #include <cstddef>
 #include <cstdlib>
 #include <cstring>
@@ -102,6 +103,9 @@ int main(int argc, char* argv[]) {
 
   if (cli.debug) cli.progress = false;
 
+  // there are no further files to be requested
+  cli.index_limit = std::min<std::size_t>(cli.index_limit, 0x100000);
+
   hibp::dnl::logger.debug = cli.debug;
 
   try {
-- 
2.43.0


From a8d7e5fd61c08ea64d5b81496c2c62e728cfe797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 15/29] fix: an empty line with CRLF line end was written as a
 record

---
 src/dnl/queuemgt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnl/queuemgt.cpp b/src/dnl/queuemgt.cpp
index 0a1df6a..ff31f7d 100644
--- a/src/dnl/queuemgt.cpp
+++ b/src/dnl/queuemgt.cpp
@@ -107,9 +107,9 @@ std::size_t write_lines(write_fn_t& write_fn, download& dl) {
   auto recordcount = 0UL;
 
   for (std::string line, prefixed_line; std::getline(ss, line);) {
+    line.erase(line.find_last_not_of('\r') + 1); // before the test: a line may be just CRLF
     if (!line.empty()) {
       prefixed_line = dl.prefix + line;
-      prefixed_line.erase(prefixed_line.find_last_not_of('\r') + 1);
 
       // calls text_writer or hibp_ff_sw, the latter via implicit conversion
       write_fn(prefixed_line);
-- 
2.43.0


From eea1e7664333b0d237cdabb7b4a62c601409f0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 16/29] fix: data race on the thread names used by --debug
 logging

---
 src/dnl/queuemgt.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dnl/queuemgt.cpp b/src/dnl/queuemgt.cpp
index ff31f7d..ae849ca 100644
--- a/src/dnl/queuemgt.cpp
+++ b/src/dnl/queuemgt.cpp
@@ -134,6 +134,11 @@ bool handle_exception(const std::exception_ptr& exception_ptr, std::thread::id t
   return false;
 }
 
+void set_thread_name(std::thread::id thr_id, const std::string& name) {
+  const std::lock_guard lk(cerr_mutex); // the logger of a running thread may be reading thrnames
+  thrnames[thr_id] = name;
+}
+
 } // namespace qmgt
 
 // msg API called by requests thread
@@ -234,8 +239,8 @@ void run(write_fn_t write_fn, std::size_t start_index_, bool testing_) {
       }
     });
 
-    req_thr_id           = requests_thread.get_id();
-    thrnames[req_thr_id] = "requests";
+    req_thr_id = requests_thread.get_id();
+    qmgt::set_thread_name(req_thr_id, "requests");
 
     std::jthread queuemgt_thread([&]() {
       try {
@@ -246,8 +251,8 @@ void run(write_fn_t write_fn, std::size_t start_index_, bool testing_) {
         req_stop_source.request_stop();
       }
     });
-    que_thr_id           = queuemgt_thread.get_id();
-    thrnames[que_thr_id] = "queuemgt";
+    que_thr_id = queuemgt_thread.get_id();
+    qmgt::set_thread_name(que_thr_id, "queuemgt");
 
   } // wait here until threads join
 
-- 
2.43.0


From bfd3b7f62af63233759fd8ca8bf8a513c4e76d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 17/29] fix: a partly written table of contents was trusted by
 later searches

Write it under a temporary name first, check for write errors, and check the size
of an existing one when loading it. Also don't append to an already built one.
---
 src/toc.cpp | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/toc.cpp b/src/toc.cpp
index d7d5b2b..a2d7ab1 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -17,6 +17,7 @@
 #include <ostream>
 #include <stdexcept>
 #include <string>
+#include <system_error>
 #include <vector>
 
 namespace hibp {
@@ -63,6 +64,7 @@ void build(const std::filesystem::path& db_path, unsigned bits) {
                            toc_entry_size);
   std::cout << fmt::format("{:30s} {:15.0f} per query\n", "Max disk reads with ToC",
                            std::ceil(std::log2(toc_entry_size)));
+  toc<PwType>.clear(); // there may be an older one
   toc<PwType>.reserve(toc_entries);
 
   toc_entry last_pos = 0;
@@ -89,19 +91,44 @@ void build(const std::filesystem::path& db_path, unsigned bits) {
 template <pw_type PwType>
 void save(const std::filesystem::path& toc_filename) {
   std::cout << fmt::format("saving table of contents: {}\n", toc_filename);
-  auto toc_stream = std::ofstream(toc_filename, std::ios_base::binary);
+  // write to a temporary file first, so that a partly written toc is never found under this name
+  std::filesystem::path tmp_filename = toc_filename;
+  tmp_filename += ".tmp";
+  auto toc_stream = std::ofstream(tmp_filename, std::ios_base::binary);
   toc_stream.write(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
                    static_cast<std::streamsize>(sizeof(toc_entry) * toc<PwType>.size()));
+  toc_stream.close();
+  std::error_code ec;
+  if (toc_stream) {
+    std::filesystem::rename(tmp_filename, toc_filename, ec);
+  }
+  if (!toc_stream || ec) {
+    std::filesystem::remove(tmp_filename, ec);
+    std::cout << "Warning: could not save table of contents. It will be rebuilt next time.\n";
+  }
+}
+
+// number of entries of the toc for the current db
+template <pw_type PwType>
+std::size_t number_entries(const std::filesystem::path& db_path, unsigned bits) {
+  flat_file::database<PwType> db(db_path);
+  return std::size_t{pw_to_prefix(db.back(), bits)} + 1;
 }
 
+// returns false if the file cannot be a complete toc of `entries` entries
 template <pw_type PwType>
-void load(const std::filesystem::path& toc_filename) {
+bool load(const std::filesystem::path& toc_filename, std::size_t entries) {
   std::cout << fmt::format("loading table of contents: {}\n", toc_filename);
   const auto toc_file_size = std::filesystem::file_size(toc_filename);
-  auto       toc_stream    = std::ifstream(toc_filename, std::ios_base::binary);
+  if (toc_file_size != entries * sizeof(toc_entry)) {
+    std::cout << "Warning: table of contents is incomplete. Rebuilding it.\n";
+    return false;
+  }
+  auto toc_stream          = std::ifstream(toc_filename, std::ios_base::binary);
   toc<PwType>              = std::vector<toc_entry>(toc_file_size / sizeof(toc_entry));
   toc_stream.read(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
                   static_cast<std::streamsize>(toc_file_size));
+  return static_cast<bool>(toc_stream);
 }
 
 template <pw_type PwType>
@@ -135,13 +162,13 @@ void toc_build(const std::filesystem::path& db_filename, unsigned bits) {
 
   const std::string toc_filename = fmt::format("{}.{}.toc", db_filename.string(), bits);
 
-  if (!std::filesystem::exists(toc_filename) || (std::filesystem::last_write_time(toc_filename) <=
-                                                 std::filesystem::last_write_time(db_filename))) {
+  if (!std::filesystem::exists(toc_filename) ||
+      (std::filesystem::last_write_time(toc_filename) <=
+       std::filesystem::last_write_time(db_filename)) ||
+      !details::load<PwType>(toc_filename, details::number_entries<PwType>(db_filename, bits))) {
 
     details::build<PwType>(db_filename, bits);
     details::save<PwType>(toc_filename);
-  } else {
-    details::load<PwType>(toc_filename);
   }
 }
 
-- 
2.43.0


From 5e3253d194844faec9bb6836d91c46587be79abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 18/29] fix: hibp-topn and hibp-convert destroyed files before
 checking their input

With --force, an existing output file was truncated although the input turned out
to be unusable, and the input itself if the same file was given for both. Also
report read errors of a text input.
---
 app/hibp_convert.cpp | 23 +++++++++++++++++++++--
 app/hibp_topn.cpp    | 25 +++++++++++++++----------
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index 2f358fe..0089baa 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -13,6 +13,7 @@
 #include <ostream>
 #include <stdexcept>
 #include <string>
+#include <system_error>
 
 struct cli_config_t {
   std::string output_filename;
@@ -64,11 +65,15 @@ std::ifstream get_input_stream(const std::string& input_filename) {
   return input_stream;
 }
 
-std::ofstream get_output_stream(const std::string& output_filename, bool force) {
+std::ofstream get_output_stream(const std::string& output_filename, bool force,
+                                const std::string& input_filename) {
   if (!force && std::filesystem::exists(output_filename)) {
     throw std::runtime_error(
         fmt::format("File '{}' exists. Use `--force` to overwrite.", output_filename));
   }
+  if (std::error_code ec; std::filesystem::equivalent(input_filename, output_filename, ec)) {
+    throw std::runtime_error("Input and output are the same file.");
+  }
 
   auto output_stream = std::ofstream(output_filename, std::ios_base::binary);
   if (!output_stream) {
@@ -88,6 +93,9 @@ void txt_to_bin(std::istream& input_stream, std::ostream& output_stream, std::si
   for (std::string line; std::getline(input_stream, line) && count != limit; count++) {
     writer.write(PwType{line});
   }
+  if (input_stream.bad()) {
+    throw std::runtime_error("Error reading the input");
+  }
   writer.flush(); // the destructor cannot report errors
 }
 
@@ -136,11 +144,22 @@ void convert(const cli_config_t& cli) {
     input_stream_name = cli.input_filename;
   }
 
+  // check the input before an existing output file gets truncated
+  if (cli.bin_to_txt) {
+    if (cli.ntlm) {
+      flat_file::database<hibp::pawned_pw_ntlm>{cli.input_filename};
+    } else {
+      flat_file::database<hibp::pawned_pw_sha1>{cli.input_filename};
+    }
+  } else if (!cli.standard_input && std::filesystem::is_directory(cli.input_filename)) {
+    throw std::runtime_error(fmt::format("'{}' is a directory", cli.input_filename));
+  }
+
   std::ostream* output_stream      = &std::cout;
   std::string   output_stream_name = "standard_output";
   std::ofstream ofs;
   if (!cli.standard_output) {
-    ofs                = get_output_stream(cli.output_filename, cli.force);
+    ofs                = get_output_stream(cli.output_filename, cli.force, cli.input_filename);
     output_stream      = &ofs;
     output_stream_name = cli.output_filename;
   }
diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index 600ecca..0e26771 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -21,6 +21,7 @@
 #include <ostream>
 #include <stdexcept>
 #include <string>
+#include <system_error>
 #include <vector>
 
 struct cli_config_t {
@@ -55,11 +56,15 @@ void define_options(CLI::App& app, cli_config_t& cli) {
   app.add_flag("-f,--force", cli.force, "Overwrite any existing output file!");
 }
 
-std::ofstream get_output_stream(const std::string& output_filename, bool force) {
+std::ofstream get_output_stream(const std::string& output_filename, bool force,
+                                const std::string& input_filename) {
   if (!force && std::filesystem::exists(output_filename)) {
     throw std::runtime_error(
         fmt::format("File '{}' exists. Use `--force` to overwrite.", output_filename));
   }
+  if (std::error_code ec; std::filesystem::equivalent(input_filename, output_filename, ec)) {
+    throw std::runtime_error("Input and output are the same file.");
+  }
 
   auto output_stream = std::ofstream(output_filename, std::ios_base::binary);
   if (!output_stream) {
@@ -72,15 +77,6 @@ std::ofstream get_output_stream(const std::string& output_filename, bool force)
 
 template <hibp::pw_type PwType>
 void build_topn(const cli_config_t& cli) {
-  std::ostream* output_stream      = &std::cout;
-  std::string   output_stream_name = "standard_output";
-  std::ofstream ofs;
-  if (!cli.standard_output) {
-    ofs                = get_output_stream(cli.output_filename, cli.force);
-    output_stream      = &ofs;
-    output_stream_name = cli.output_filename;
-  }
-
   flat_file::database<PwType> input_db(cli.input_filename, (1U << 16U) / sizeof(PwType));
 
   if (input_db.number_records() <= cli.topn) {
@@ -88,6 +84,15 @@ void build_topn(const cli_config_t& cli) {
         fmt::format("size of input db ({}) <= topn ({}). Output would be identical. Aborting.",
                     input_db.number_records(), cli.topn));
   }
+
+  // only once we know that the input is usable, because this truncates an existing output file
+  std::ostream* output_stream = &std::cout;
+  std::ofstream ofs;
+  if (!cli.standard_output) {
+    ofs           = get_output_stream(cli.output_filename, cli.force, cli.input_filename);
+    output_stream = &ofs;
+  }
+
   std::vector<PwType> memdb(cli.topn);
 
   // don't mix messages into the db
-- 
2.43.0


From f199921455d99342994bb01bb425da0e09b0da7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 19/29] fix: a malformed text line was converted into a garbage
 record

---
 include/hibp.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/hibp.hpp b/include/hibp.hpp
index c9b9e31..074479e 100644
--- a/include/hibp.hpp
+++ b/include/hibp.hpp
@@ -9,6 +9,7 @@
 #include <cstdint>
 #include <fmt/format.h>
 #include <ostream>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 
@@ -52,7 +53,11 @@ struct pawned_pw {
   pawned_pw() = default;
 
   explicit pawned_pw(const std::string& text) {
-    assert(text.length() >= hash_str_size);
+    if (text.length() < hash_str_size ||
+        text.find_first_not_of("0123456789ABCDEFabcdef") < hash_str_size) {
+      throw std::invalid_argument(fmt::format("'{}' does not begin with a hash of {} hex digits",
+                                              text, hash_str_size));
+    }
     std::size_t i = 0;
     for (auto& b: hash) {
       b = detail::make_byte(&text[2 * i]);
-- 
2.43.0


From bcc09fe4720dda67d8d668b921076e4060a54a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 20/29] fix: hibp-dupes reported the first record as a dupe if
 its leading 64 bits are all ones

---
 app/hibp_dupes.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/app/hibp_dupes.cpp b/app/hibp_dupes.cpp
index 950ba70..c6836d4 100644
--- a/app/hibp_dupes.cpp
+++ b/app/hibp_dupes.cpp
@@ -37,13 +37,15 @@ void run_search(const cli_config_t& cli) {
   flat_file::database<PwType> db(cli.db_filename, (1U << 16U) / sizeof(PwType));
 
   std::cout << fmt::format("Looking for duplicates in the first {} bits of the hash...\n", cli.bits);
-  std::uint64_t last = -1;
+  std::uint64_t last  = 0;
+  bool          first = true; // the first record has nothing to be compared to
   for (auto& pw: db) {
     auto prefix = arrcmp::impl::bytearray_cast<std::uint64_t>(pw.hash.data()) >> (64 - cli.bits);
-    if (prefix == last) {
+    if (!first && prefix == last) {
       std::cout << fmt::format("{:016X} is a dupe (orig record: {})\n", prefix, pw.to_string());
     }
-    last = prefix;
+    last  = prefix;
+    first = false;
   }
 }
 
-- 
2.43.0


From 40c6ce1b09d80829311d19ad9d83e7b6e89ef501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 21/29] fix: an incomplete UTF-8 sequence at the end of an NTLM
 password was ignored

---
 src/ntlm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ntlm.cpp b/src/ntlm.cpp
index c40829b..b18da05 100644
--- a/src/ntlm.cpp
+++ b/src/ntlm.cpp
@@ -3,6 +3,7 @@
 #include <codecvt>
 #include <cstddef>
 #include <locale>
+#include <stdexcept>
 #include <string>
 
 namespace hibp {
@@ -10,6 +11,10 @@ namespace hibp {
 std::string utf8_to_utf16_le(const std::string& utf8Str) {
   std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> converter;
   const std::u16string utf16_str = converter.from_bytes(utf8Str);
+  // from_bytes() throws for an invalid sequence, but just drops an incomplete one at the end
+  if (converter.converted() != utf8Str.size()) {
+    throw std::range_error("incomplete UTF-8 sequence at the end of the input");
+  }
 
   // Convert UTF-16 to a byte string in little endian, on any platform
   std::string utf16_le;
-- 
2.43.0


From 3553533098ea7fd7e39f65f724ced168c10bd160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:34 +0000
Subject: [PATCH 22/29] fix: a resumed sha1t64 download could take an
 incomplete last file for complete

---
 src/dnl/resume.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dnl/resume.cpp b/src/dnl/resume.cpp
index fd7725a..6f0c9fd 100644
--- a/src/dnl/resume.cpp
+++ b/src/dnl/resume.cpp
@@ -46,10 +46,13 @@ std::size_t get_last_prefix(const std::string& filename, bool testing) {
     throw std::runtime_error(fmt::format("Corrupt last file download with prefix '{}'.", prefix));
   }
 
-  auto last_file_hash =
-      filebody.substr(pos_colon - PwType::suffix_str_size, PwType::suffix_str_size);
+  const auto pos_hash       = pos_colon - PwType::suffix_str_size;
+  auto       last_file_hash = filebody.substr(pos_hash, PwType::suffix_str_size);
 
-  if (last_file_hash == suffix) {
+  // for truncated hashes this is only the end of a longer hash, which says nothing
+  const bool is_whole_suffix = pos_hash == 0 || filebody[pos_hash - 1] == '\n';
+
+  if (is_whole_suffix && last_file_hash == suffix) {
     std::size_t last_prefix{};
     std::from_chars(prefix.c_str(), prefix.c_str() + prefix.length(), last_prefix, 16);
 
-- 
2.43.0


From 9bd1d4b5c9df5455785fa17a02b862998090cbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 23/29] fix: hibp-sort destroyed its input if the name of an
 output file is a link to it

---
 include/flat_file.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index fadd42d..5773e31 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -18,6 +18,7 @@
 #include <queue>
 #include <stdexcept>
 #include <string>
+#include <system_error>
 #include <type_traits>
 #include <utility>
 #include <vector>
@@ -205,6 +206,14 @@ private:
   reference current() const { return ffdb_->get_record(pos_); }
 };
 
+// an existing link to the input db must not be written to
+inline void check_not_input(const std::filesystem::path& input, const std::filesystem::path& output) {
+  if (std::error_code ec; std::filesystem::equivalent(input, output, ec)) {
+    throw std::runtime_error(fmt::format("'{}' and '{}' are the same file.", input.string(),
+                                         output.string()));
+  }
+}
+
 template <typename ValueType, typename Comp = std::less<>, typename Proj = std::identity>
 std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_iterator first,
                                           typename database<ValueType>::const_iterator last,
@@ -233,6 +242,7 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
   for (std::size_t chunk = 0; chunk != number_of_chunks; ++chunk) {
     std::string chunk_filename = fmt::format("{}.partial.{:04d}", first.filename().string(), chunk);
     chunk_filenames.push_back(chunk_filename);
+    check_not_input(first.filename(), chunk_filename);
 
     std::size_t start = chunk * chunk_size;
     std::size_t end   = start + std::min(chunk_size, records_to_sort - start);
@@ -316,11 +326,12 @@ std::string disksort_range(typename database<ValueType>::const_iterator first,
                            typename database<ValueType>::const_iterator last, Comp comp = {},
                            Proj proj = {}, std::size_t max_memory_usage = 1'000'000'000) {
 
+  std::string sorted_filename = fmt::format("{}.sorted", first.filename().string());
+  check_not_input(first.filename(), sorted_filename);
+
   std::vector<std::string> chunk_filenames =
       sort_into_chunks<ValueType>(first, last, comp, proj, max_memory_usage);
 
-  std::string sorted_filename = fmt::format("{}.sorted", first.filename().string());
-
   if (chunk_filenames.size() == 1) {
     std::filesystem::rename(chunk_filenames[0], sorted_filename);
     std::cerr << fmt::format("\nrenaming {} => {}\n", chunk_filenames[0], sorted_filename);
-- 
2.43.0


From 21d5a162b0bc4b4b9055dcf5fe6111994b17d72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:32 +0000
Subject: [PATCH 24/29] fix: the program was aborted if the output failed while
 an exception was under way

The destructor of stream_writer writes what is still buffered, and an exception there
ends the program by std::terminate(), e.g. if a download gives up while the disk is full.
---
 include/flat_file.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 5773e31..20fb5f8 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -72,7 +72,13 @@ public:
   stream_writer(stream_writer&& other) noexcept            = default;
   stream_writer& operator=(stream_writer&& other) noexcept = default;
 
-  ~stream_writer() { flush(); }
+  ~stream_writer() {
+    try {
+      flush();
+    } catch (...) { // NOLINT cannot report it, call flush() to learn of errors; the stream knows
+      // an exception may be under way, and this must not terminate the program
+    }
+  }
 
 private:
   std::ostream&          db_; // NOLINT ref
-- 
2.43.0


From d29ef8790056457d60a1447bace8d3e5a6ba8f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:53 +0000
Subject: [PATCH 25/29] fix: hibp-server crashed on very long urls

---
 src/srv/server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index c1bf729..cff8a2d 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -215,6 +215,9 @@ void run_server() {
   auto settings = restinio::on_thread_pool<my_server_traits>(cli.threads)
                       .address(cli.bind_address)
                       .port(cli.port)
+                      // routing uses std::regex, which exhausts the stack on very long urls
+                      .incoming_http_msg_limits(
+                          restinio::incoming_http_msg_limits_t{}.max_url_size(8192U))
                       .request_handler(get_router(cli.sha1_db_filename, cli.ntlm_db_filename,
                                                   cli.sha1t64_db_filename));
 
-- 
2.43.0


From e0a71a19c2aca99f32767ace78f58766d6814869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:58 +0000
Subject: [PATCH 26/29] fix: hibp-server never answered again after too many
 simultaneous connections

---
 src/srv/server.cpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index cff8a2d..349a2f8 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -6,10 +6,12 @@
 #include <algorithm>
 #include <atomic>
 #include <charconv>
+#include <cstddef>
 #include <cstdlib>
 #include <exception>
 #include <fmt/format.h>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <optional>
 #include <restinio/http_headers.hpp>
@@ -21,6 +23,9 @@
 #include <string_view>
 #include <type_traits>
 #include <utility>
+#ifdef __unix__
+#include <sys/resource.h>
+#endif
 
 namespace hibp::srv {
 
@@ -185,12 +190,28 @@ auto get_router(const std::string& sha1_db_filename, const std::string& ntlm_db_
   return router;
 }
 
-void run_server() {
-  // Launching a server with custom traits.
-  struct my_server_traits : public restinio::default_traits_t {
-    using request_handler_t = restinio::router::express_router_t<>;
-  };
+// restinio never accepts another connection, once one could not be accepted for lack of file
+// descriptors. So stay below that limit: further clients wait until a connection is closed.
+std::size_t max_connections() {
+#ifdef __unix__
+  struct rlimit limit {};
+  if (getrlimit(RLIMIT_NOFILE, &limit) == 0 && limit.rlim_cur != RLIM_INFINITY) {
+    const std::size_t files    = limit.rlim_cur;
+    const std::size_t reserved = 16 + 4 * static_cast<std::size_t>(cli.threads); // dbs, etc
+    return files > reserved ? files - reserved : 1;
+  }
+#endif
+  return std::numeric_limits<std::size_t>::max();
+}
 
+// Launching a server with custom traits.
+struct my_server_traits : public restinio::default_traits_t {
+  using request_handler_t = restinio::router::express_router_t<>;
+
+  static constexpr bool use_connection_count_limiter = true;
+};
+
+void run_server() {
   std::cout << fmt::format("Serving from {0}:{1}\n"
                            "Make a request to any of:\n"
                            "http://{0}:{1}/check/plain/password123  [using {2} db]\n",
@@ -215,6 +236,7 @@ void run_server() {
   auto settings = restinio::on_thread_pool<my_server_traits>(cli.threads)
                       .address(cli.bind_address)
                       .port(cli.port)
+                      .max_parallel_connections(max_connections())
                       // routing uses std::regex, which exhausts the stack on very long urls
                       .incoming_http_msg_limits(
                           restinio::incoming_http_msg_limits_t{}.max_url_size(8192U))
-- 
2.43.0


From 9fd58fd6e5a836e91820553508aedbd2bfb1ecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:20 +0000
Subject: [PATCH 27/29] fix: two processes saving the same table of contents
 could leave a corrupt one

---
 src/toc.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/toc.cpp b/src/toc.cpp
index a2d7ab1..90ff252 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -15,6 +15,7 @@
 #include <limits>
 #include <optional>
 #include <ostream>
+#include <random>
 #include <stdexcept>
 #include <string>
 #include <system_error>
@@ -91,9 +92,10 @@ void build(const std::filesystem::path& db_path, unsigned bits) {
 template <pw_type PwType>
 void save(const std::filesystem::path& toc_filename) {
   std::cout << fmt::format("saving table of contents: {}\n", toc_filename);
-  // write to a temporary file first, so that a partly written toc is never found under this name
+  // write to a temporary file first, so that a partly written toc is never found under this name.
+  // The temporary file is our own: another process may be saving the same toc at the same time
   std::filesystem::path tmp_filename = toc_filename;
-  tmp_filename += ".tmp";
+  tmp_filename += fmt::format(".{:08x}.tmp", std::random_device{}());
   auto toc_stream = std::ofstream(tmp_filename, std::ios_base::binary);
   toc_stream.write(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
                    static_cast<std::streamsize>(sizeof(toc_entry) * toc<PwType>.size()));
-- 
2.43.0


From bdc7cbc1dd826d3debcbcd9b4afd540b9063e20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:41 +0000
Subject: [PATCH 28/29] fix: --resume must not wait forever for a server which
 falls silent

---
 src/dnl/requests.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dnl/requests.cpp b/src/dnl/requests.cpp
index b152cdc..1831092 100644
--- a/src/dnl/requests.cpp
+++ b/src/dnl/requests.cpp
@@ -266,6 +266,9 @@ std::string curl_sync_get(const std::string& url) {
   curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, +write_cb); // convert to func ptr
   std::string result_body;
   curl_easy_setopt(curl, CURLOPT_WRITEDATA, &result_body);
+  // abort if slower than 1000 bytes/sec for 5 seconds
+  curl_easy_setopt(curl, CURLOPT_LOW_SPEED_TIME, 5L);
+  curl_easy_setopt(curl, CURLOPT_LOW_SPEED_LIMIT, 1000L);
   if (auto res = curl_easy_perform(curl); res != CURLE_OK) {
     curl_easy_cleanup(curl);
     throw std::runtime_error(fmt::format("curl_sync_get: Couldn't retrieve '{}'. Error: {}", url,
-- 
2.43.0


From 711d42141319ec58af40c56a3145ee53ae0cc259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:41 +0000
Subject: [PATCH 29/29] fix: hibp-server could hang instead of failing if its
 address was in use

---
 src/srv/server.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index 349a2f8..72927bf 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -6,6 +6,7 @@
 #include <algorithm>
 #include <atomic>
 #include <charconv>
+#include <csignal>
 #include <cstddef>
 #include <cstdlib>
 #include <exception>
@@ -233,7 +234,7 @@ void run_server() {
                              cli.port);
   }
 
-  auto settings = restinio::on_thread_pool<my_server_traits>(cli.threads)
+  auto settings = restinio::server_settings_t<my_server_traits>{}
                       .address(cli.bind_address)
                       .port(cli.port)
                       .max_parallel_connections(max_connections())
@@ -243,7 +244,18 @@ void run_server() {
                       .request_handler(get_router(cli.sha1_db_filename, cli.ntlm_db_filename,
                                                   cli.sha1t64_db_filename));
 
-  restinio::run(std::move(settings));
+  // restinio::run() on a thread pool may wait forever, if it cannot have the address
+  auto server = restinio::run_async<my_server_traits>(restinio::own_io_context(),
+                                                      std::move(settings), cli.threads);
+
+  // serve until ctrl-c
+  restinio::asio_ns::io_context signals;
+  restinio::asio_ns::signal_set ctrl_c{signals, SIGINT};
+  ctrl_c.async_wait([](const auto& /*error*/, int /*signal*/) {});
+  signals.run();
+
+  server->stop();
+  server->wait();
 }
 
 } // namespace hibp::srv
-- 
2.43.0

