From 77092637b0617ae84954850b2090a87fff2af70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:20 +0000
Subject: [PATCH 01/43] fix: cache cleanup compares creation times, not their
 trailing Z

---
 tools/cache_cleanup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/cache_cleanup.py b/tools/cache_cleanup.py
index 1b76f63..1ea3183 100644
--- a/tools/cache_cleanup.py
+++ b/tools/cache_cleanup.py
@@ -14,7 +14,8 @@ from typing import Any
 def expired_cache_ids(caches: Iterable[dict[str, Any]], prefix: str) -> list[int]:
     """Return matching cache IDs except the newest one."""
     matching = [cache for cache in caches if cache["key"].startswith(prefix)]
-    matching.sort(key=lambda cache: cache["createdAt"])
+    # Fractions of a second come without trailing zeros, so "Z" must not take part in the comparison.
+    matching.sort(key=lambda cache: cache["createdAt"].removesuffix("Z"))
     return [cache["id"] for cache in matching[:-1]]
 
 
-- 
2.43.0


From febd7fa8c380b5dcc9aa7fe0f2ae138fcc839d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:45 +0000
Subject: [PATCH 02/43] fix: Readable returns a status instead of throwing when
 a path cannot be examined

---
 mbo/file/file.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mbo/file/file.cc b/mbo/file/file.cc
index cbb963a..ea62eb3 100644
--- a/mbo/file/file.cc
+++ b/mbo/file/file.cc
@@ -79,10 +79,16 @@ absl::Status SetContents(const std::filesystem::path& file_name, std::string_vie
 }
 
 absl::Status Readable(const std::filesystem::path& file_name) {
-  if (!std::filesystem::exists(file_name)) {
+  // The overload without `std::error_code` throws, e.g. for symlink loops or missing directory permissions.
+  std::error_code error;
+  const std::filesystem::file_status status = std::filesystem::status(file_name, error);
+  if (status.type() == std::filesystem::file_type::not_found) {
     return absl::NotFoundError(absl::StrFormat("File does not exist: '%s'", file_name));
   }
-  if (std::filesystem::is_directory(file_name)) {
+  if (error) {
+    return absl::NotFoundError(absl::StrFormat("Unable to read file: '%s'", file_name));
+  }
+  if (std::filesystem::is_directory(status)) {
     return absl::FailedPreconditionError(absl::StrFormat("Cannot open directory for reading: '%s'", file_name));
   }
   // Perform same operation as `GetContents` and use the ifstream constructor
-- 
2.43.0


From 71c30cd35229412ccead364d62a24bdea657ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:45 +0000
Subject: [PATCH 03/43] fix: GetContents on a directory returns a status
 instead of allocating its reported size

---
 mbo/file/file.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mbo/file/file.cc b/mbo/file/file.cc
index ea62eb3..4e9c3f1 100644
--- a/mbo/file/file.cc
+++ b/mbo/file/file.cc
@@ -15,6 +15,7 @@
 
 #include "mbo/file/file.h"
 
+#include <algorithm>
 #include <chrono>
 #include <cstddef>
 #include <cstdint>
@@ -136,11 +137,19 @@ absl::StatusOr<std::string> GetContents(const std::filesystem::path& file_name)
     return "";
   }
 
+  // Do not trust the reported size for a single allocation: On some file systems
+  // directories report the maximum possible size. Growing in bounded steps means
+  // such reads fail before anything excessive gets allocated.
+  static constexpr std::size_t kMaxStep = std::size_t{1} << 24U;
+  const auto total = static_cast<std::size_t>(size);
   std::string result;
-  result.resize(static_cast<std::size_t>(size));
-
-  if (!ifs.read(result.data(), static_cast<std::streamsize>(size))) {
-    return absl::UnknownError(absl::StrFormat("Unable to read file: '%s'", file_name));
+  while (result.size() < total) {
+    const std::size_t offset = result.size();
+    const std::size_t step = std::min(total - offset, kMaxStep);
+    result.resize(offset + step);
+    if (!ifs.read(result.data() + offset, static_cast<std::streamsize>(step))) {
+      return absl::UnknownError(absl::StrFormat("Unable to read file: '%s'", file_name));
+    }
   }
 
   return result;
-- 
2.43.0


From b89479d6047d8c992f930e89289ef047a72c9c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:37 +0000
Subject: [PATCH 04/43] fix: digest reports read errors instead of digesting
 the part read so far

---
 mbo/digest/digest_main.cc | 47 ++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/mbo/digest/digest_main.cc b/mbo/digest/digest_main.cc
index 3548ede..be97d11 100644
--- a/mbo/digest/digest_main.cc
+++ b/mbo/digest/digest_main.cc
@@ -16,6 +16,7 @@
 #include <array>
 #include <cctype>
 #include <cstddef>
+#include <cstdio>
 #include <filesystem>
 #include <fstream>
 #include <iostream>
@@ -114,22 +115,31 @@ namespace {
 
 namespace fs = std::filesystem;
 
-// Digests a stream in chunks (no whole-file buffering).
+// Whether reading `input` ended because of an error as opposed to the end of the input. For `std::cin` a read error looks
+// like its end, only the C stream it is synchronized with tells them apart.
+bool HasReadError(const std::istream& input) {
+  return input.bad() || (&input == &std::cin && std::ferror(stdin) != 0);
+}
+
+// Digests a stream in chunks (no whole-file buffering). Returns `std::nullopt` if the stream cannot be read to its end.
 template<typename Algo>
-std::string HexDigestStream(std::istream& input) {
+std::optional<std::string> HexDigestStream(std::istream& input) {
   static constexpr std::size_t kChunkSize = 1ULL << 16U;
   Streamer<Algo> stream;
   std::array<char, kChunkSize> buffer = {};
   while (input.read(buffer.data(), kChunkSize).gcount() > 0) {
     stream.Update(std::string_view(buffer.data(), static_cast<std::size_t>(input.gcount())));
   }
+  if (HasReadError(input)) {
+    return std::nullopt;
+  }
   return ToHexString(stream.Finalize());
 }
 
 // The SHAKE XOFs have no inherent output size; the CLI prints 32 bytes.
 constexpr std::size_t kShakeOutputSize = 32;
 
-using DigestFunc = std::string (*)(std::istream&);
+using DigestFunc = std::optional<std::string> (*)(std::istream&);
 
 struct NamedAlgorithm {
   std::string_view name;
@@ -192,6 +202,7 @@ struct CheckStats {
   std::size_t mismatched = 0;
   std::size_t unreadable = 0;
   std::size_t malformed = 0;
+  bool read_error = false;  // A checksum stream could not be read to its end.
 };
 
 // Verifies all lines of one checksum stream (see the --check flag).
@@ -211,8 +222,10 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
     }
     const auto [hex, file_name] = *parsed;
     std::ifstream input{fs::path(file_name), std::ios::binary};
-    if (!input) {
-      if (!ignore_missing) {
+    const bool missing = !input;
+    const std::optional<std::string> digest = missing ? std::nullopt : algorithm.func(input);
+    if (!digest.has_value()) {
+      if (!missing || !ignore_missing) {
         ++stats.unreadable;
         if (!silent) {
           std::cout << file_name << ": FAILED open or read\n";
@@ -220,7 +233,7 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
       }
       continue;
     }
-    if (algorithm.func(input) == ToLowerHex(hex)) {
+    if (*digest == ToLowerHex(hex)) {
       ++stats.verified;
       if (!quiet) {
         std::cout << file_name << ": OK\n";
@@ -232,6 +245,7 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
       }
     }
   }
+  stats.read_error = HasReadError(sums);
 }
 
 // Verifies all checksum files ('-' = stdin); returns the process exit code.
@@ -240,6 +254,10 @@ int RunCheck(const NamedAlgorithm& algorithm, const std::vector<std::string_view
   for (const std::string_view file_name : files) {
     if (file_name == "-") {
       CheckStream(algorithm, std::cin, stats);
+      if (stats.read_error) {
+        std::cerr << file_name << ": Cannot read checksum file.\n";
+        return 1;
+      }
       continue;
     }
     std::ifstream sums{fs::path(file_name), std::ios::binary};
@@ -248,6 +266,10 @@ int RunCheck(const NamedAlgorithm& algorithm, const std::vector<std::string_view
       return 1;
     }
     CheckStream(algorithm, sums, stats);
+    if (stats.read_error) {
+      std::cerr << file_name << ": Cannot read checksum file.\n";
+      return 1;
+    }
   }
   const bool silent = absl::GetFlag(FLAGS_status);
   auto warn = [&](std::size_t count, std::string_view what) {
@@ -272,9 +294,18 @@ int RunCheck(const NamedAlgorithm& algorithm, const std::vector<std::string_view
 // are reported per file and processing continues (like the coreutils tools).
 int Run(DigestFunc digest, const std::vector<std::string_view>& files) {
   int result = 0;
+  auto print_digest = [&](std::istream& input, std::string_view file_name) {
+    const std::optional<std::string> hex = digest(input);
+    if (!hex.has_value()) {
+      std::cerr << file_name << ": Cannot read file.\n";
+      result = 1;
+      return;
+    }
+    Print(*hex, file_name);
+  };
   for (const std::string_view file_name : files) {
     if (file_name == "-") {
-      Print(digest(std::cin), file_name);
+      print_digest(std::cin, file_name);
       continue;
     }
     const fs::path path(file_name);
@@ -292,7 +323,7 @@ int Run(DigestFunc digest, const std::vector<std::string_view>& files) {
       result = 1;
       continue;
     }
-    Print(digest(input), file_name);
+    print_digest(input, file_name);
   }
   return result;
 }
-- 
2.43.0


From ee80766d3ae1a1bfb93bb603ab59b72de1040c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:37 +0000
Subject: [PATCH 05/43] fix: digest exits non-zero when its output cannot be
 written

---
 mbo/digest/digest_main.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mbo/digest/digest_main.cc b/mbo/digest/digest_main.cc
index be97d11..d8b1c9b 100644
--- a/mbo/digest/digest_main.cc
+++ b/mbo/digest/digest_main.cc
@@ -372,8 +372,13 @@ int main(int argc, char* argv[]) {
     }
   }
   const std::vector<std::string_view> files(args.begin() + 1, args.end());
-  if (absl::GetFlag(FLAGS_check) || absl::GetFlag(FLAGS_c)) {
-    return mbo::digest::RunCheck(*algorithm, files);
+  const bool check = absl::GetFlag(FLAGS_check) || absl::GetFlag(FLAGS_c);
+  const int result =
+      check ? mbo::digest::RunCheck(*algorithm, files) : mbo::digest::Run(algorithm->func, files);
+  std::cout.flush();
+  if (!std::cout) {
+    std::cerr << "digest: Cannot write to standard output.\n";
+    return 1;
   }
-  return mbo::digest::Run(algorithm->func, files);
+  return result;
 }
-- 
2.43.0


From 1ce455b8a0933a96e4abd47ada5d4ce949850603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:47 +0000
Subject: [PATCH 06/43] fix: Glob ends with a status instead of throwing on
 file system errors

---
 mbo/file/glob.cc | 21 +++++++++++++++++----
 mbo/file/glob.h  |  4 ++--
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index a513b71..67dcd8a 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -497,8 +497,12 @@ void FileIteratorDisableRecursionPending(FileIterator& file_iterator) {
 
 template<typename FileIterator>
 absl::Status GlobLoopImpl(const fs::path& root, const GlobOptions& options, const GlobEntryFunc& func) {
-  const fs::path normalized_root = (root.empty() || root == ".") ? fs::current_path() : root.lexically_normal();
   std::error_code error_code;
+  const fs::path normalized_root =
+      (root.empty() || root == ".") ? fs::current_path(error_code) : root.lexically_normal();
+  if (error_code) {
+    return absl::CancelledError(error_code.message());
+  }
   if (!fs::exists(normalized_root, error_code)) {
     return absl::NotFoundError(
         error_code ? error_code.message() : absl::StrFormat("Path does not exist: '%s'.", normalized_root));
@@ -507,7 +511,9 @@ absl::Status GlobLoopImpl(const fs::path& root, const GlobOptions& options, cons
   if (error_code) {
     return absl::CancelledError(error_code.message());
   }
-  for (const fs::directory_entry& entry : it) {
+  // Increment explicitly, since the increment operator of a range based for-loop throws.
+  for (; it != FileIterator(); it.increment(error_code)) {
+    const fs::directory_entry& entry = *it;
     const GlobEntry glob_entry{
         .rel_path =
             options.use_rel_path ? std::optional<fs::path>{entry.path().lexically_relative(root)} : std::nullopt,
@@ -524,6 +530,9 @@ absl::Status GlobLoopImpl(const fs::path& root, const GlobOptions& options, cons
       }
     }
   }
+  if (error_code) {
+    return absl::CancelledError(error_code.message());
+  }
   return absl::OkStatus();
 }
 
@@ -539,10 +548,14 @@ absl::Status GlobLoop(const fs::path& root, const GlobOptions& options, const Gl
 
 absl::Status GlobRe2(fs::path root, const RE2& regex, const GlobOptions& options, const GlobEntryFunc& func) {
   if (options.use_current_dir) {
+    std::error_code error_code;
     if (root.empty() || root == ".") {
-      root = std::filesystem::current_path();
+      root = std::filesystem::current_path(error_code);
     } else if (root.is_relative()) {
-      root = std::filesystem::current_path() / root;
+      root = std::filesystem::current_path(error_code) / root;
+    }
+    if (error_code) {
+      return absl::CancelledError(error_code.message());
     }
   }
   const auto wrap_func = [&](const GlobEntry& entry) -> absl::StatusOr<GlobEntryAction> {
diff --git a/mbo/file/glob.h b/mbo/file/glob.h
index 4eccb7e..19cbc91 100644
--- a/mbo/file/glob.h
+++ b/mbo/file/glob.h
@@ -138,10 +138,10 @@ struct GlobEntry : mbo::types::Extend<GlobEntry> {
   // Returns the file's size or 0 if the entry is not a regular file.
   // If the file size cannot be retrieved, then the function also returns 0.
   std::size_t FileSize() const noexcept {
-    if (!entry.is_regular_file()) {
+    std::error_code error;
+    if (!entry.is_regular_file(error)) {
       return 0;
     }
-    std::error_code error;
     const std::size_t result = entry.file_size(error);
     return error ? 0 : result;
   }
-- 
2.43.0


From 1880d8e4594c16ff353595e1c456dc4ee7c10f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:47 +0000
Subject: [PATCH 07/43] fix: Glob matches relative to the normalized root it
 walks

---
 mbo/file/glob.cc | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 67dcd8a..469806c 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -498,16 +498,11 @@ void FileIteratorDisableRecursionPending(FileIterator& file_iterator) {
 template<typename FileIterator>
 absl::Status GlobLoopImpl(const fs::path& root, const GlobOptions& options, const GlobEntryFunc& func) {
   std::error_code error_code;
-  const fs::path normalized_root =
-      (root.empty() || root == ".") ? fs::current_path(error_code) : root.lexically_normal();
-  if (error_code) {
-    return absl::CancelledError(error_code.message());
-  }
-  if (!fs::exists(normalized_root, error_code)) {
+  if (!fs::exists(root, error_code)) {
     return absl::NotFoundError(
-        error_code ? error_code.message() : absl::StrFormat("Path does not exist: '%s'.", normalized_root));
+        error_code ? error_code.message() : absl::StrFormat("Path does not exist: '%s'.", root));
   }
-  auto it = FileIterator(normalized_root, options.dir_options, error_code);
+  auto it = FileIterator(root, options.dir_options, error_code);
   if (error_code) {
     return absl::CancelledError(error_code.message());
   }
@@ -547,17 +542,17 @@ absl::Status GlobLoop(const fs::path& root, const GlobOptions& options, const Gl
 }  // namespace
 
 absl::Status GlobRe2(fs::path root, const RE2& regex, const GlobOptions& options, const GlobEntryFunc& func) {
-  if (options.use_current_dir) {
-    std::error_code error_code;
-    if (root.empty() || root == ".") {
-      root = std::filesystem::current_path(error_code);
-    } else if (root.is_relative()) {
-      root = std::filesystem::current_path(error_code) / root;
-    }
-    if (error_code) {
-      return absl::CancelledError(error_code.message());
-    }
+  // Normalize once: The entries are found below and their relative paths are relative to the very same `root`.
+  std::error_code error_code;
+  if (root.empty() || root == ".") {
+    root = std::filesystem::current_path(error_code);
+  } else if (options.use_current_dir && root.is_relative()) {
+    root = std::filesystem::current_path(error_code) / root;
+  }
+  if (error_code) {
+    return absl::CancelledError(error_code.message());
   }
+  root = root.lexically_normal();
   const auto wrap_func = [&](const GlobEntry& entry) -> absl::StatusOr<GlobEntryAction> {
     if (!regex.pattern().empty()) {
       if (options.use_rel_path) {
-- 
2.43.0


From bc49ecaf2c9fb1647987c6204859948d1f36d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:39 +0000
Subject: [PATCH 08/43] fix: diff exits with trouble when its output cannot be
 written

---
 mbo/diff/diff_main.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mbo/diff/diff_main.cc b/mbo/diff/diff_main.cc
index 2f48cbc..1514b1c 100644
--- a/mbo/diff/diff_main.cc
+++ b/mbo/diff/diff_main.cc
@@ -309,7 +309,11 @@ int Diff(std::string_view lhs_name, std::string_view rhs_name) {
     return kExitTrouble;
   }
   if (!result->empty()) {
-    std::cout << *result;
+    std::cout << *result << std::flush;
+    if (!std::cout) {
+      ABSL_LOG(ERROR) << "ERROR: Cannot write the differences to the standard output.";
+      return kExitTrouble;
+    }
     return kExitDifferent;
   }
   return kExitEqual;
-- 
2.43.0


From 2531119c23bfcb236b5634fdec4f6b2f71701d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:59 +0000
Subject: [PATCH 09/43] fix: line options apply to a last line without newline,
 too

---
 mbo/diff/internal/data.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mbo/diff/internal/data.cc b/mbo/diff/internal/data.cc
index 8946501..f5221ac 100644
--- a/mbo/diff/internal/data.cc
+++ b/mbo/diff/internal/data.cc
@@ -95,14 +95,11 @@ std::vector<Data::LineCache> Data::SplitAndAdaptLastLine(
   // suppresses the marker (the last line is processed like any other), equating the two forms. The
   // zero-length-input guard above still fires on the real `got_nl`, so "" is never equated with "\n".
   if (!got_nl && !options.ignore_missing_final_newline) {
-    if (!result.empty()) {
-      result.pop_back();
-    }
-    result.push_back({
-        .line = last_line,
-        .processed = last_line,
-        .matches_ignore = false,
-    });
+    // The comparison text is the processed last line (so all options apply to it) plus the marker.
+    LineCache& last = result.back();
+    const std::string_view marker = last_line.substr(last.line.length());
+    last.line = last_line;
+    last.processed = owned.emplace_back(absl::StrCat(last.processed, marker));
   }
   return result;
 }
-- 
2.43.0


From 29d9b50db445dbad78a125daf65f6a5e50c7d9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:56 +0000
Subject: [PATCH 10/43] fix: INI files may contain lines of white space

---
 mbo/file/ini/ini_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbo/file/ini/ini_file.cc b/mbo/file/ini/ini_file.cc
index 4400212..6ac0b48 100644
--- a/mbo/file/ini/ini_file.cc
+++ b/mbo/file/ini/ini_file.cc
@@ -44,6 +44,9 @@ IniFile IniFile::Parse(std::string_view content) {
   std::string_view group;
   for (auto line : lines) {
     line = absl::StripAsciiWhitespace(line);
+    if (line.empty()) {
+      continue;
+    }
     if (line.starts_with('[') && line.ends_with(']')) {
       line.remove_prefix(1);
       line.remove_suffix(1);
-- 
2.43.0


From 8fc72118a83026da1c937f66bd265495b65ce5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:56 +0000
Subject: [PATCH 11/43] fix: mope reports an unreadable template instead of
 crashing

---
 mbo/mope/mope_main.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mbo/mope/mope_main.cc b/mbo/mope/mope_main.cc
index 3bdca6b..f510ddb 100644
--- a/mbo/mope/mope_main.cc
+++ b/mbo/mope/mope_main.cc
@@ -97,7 +97,7 @@ absl::Status ApplySetFlag(
 }
 
 absl::Status Process(const Options& opts) {
-  auto input = mbo::file::Artefact::Read(opts.template_name);
+  MBO_ASSIGN_OR_RETURN(auto input, mbo::file::Artefact::Read(opts.template_name));
   mbo::mope::Template mope_template;
   // Add `--set` flag values.
   absl::flat_hash_map<std::string, std::string> context_data;
@@ -110,12 +110,12 @@ absl::Status Process(const Options& opts) {
     MBO_RETURN_IF_ERROR(mope::ReadIniToTemlate(ini_filename, mope_template));
   }
   // Expand the template.
-  MBO_RETURN_IF_ERROR(mope_template.Expand(input->data, mbo::container::MakeConvertingScan(context_data)));
+  MBO_RETURN_IF_ERROR(mope_template.Expand(input.data, mbo::container::MakeConvertingScan(context_data)));
   if (opts.generate_name.empty() || opts.generate_name == "-") {
-    std::cout << input->data;
+    std::cout << input.data;
     return absl::OkStatus();
   }
-  return mbo::file::SetContents(opts.generate_name, input->data);
+  return mbo::file::SetContents(opts.generate_name, input.data);
 }
 
 }  // namespace
-- 
2.43.0


From 74410b89cf705d22b5b1e70315ed66e503cf15db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:56 +0000
Subject: [PATCH 12/43] fix: mope exits non-zero when its output cannot be
 written

---
 mbo/mope/mope_main.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mbo/mope/mope_main.cc b/mbo/mope/mope_main.cc
index f510ddb..d859f7f 100644
--- a/mbo/mope/mope_main.cc
+++ b/mbo/mope/mope_main.cc
@@ -112,7 +112,10 @@ absl::Status Process(const Options& opts) {
   // Expand the template.
   MBO_RETURN_IF_ERROR(mope_template.Expand(input.data, mbo::container::MakeConvertingScan(context_data)));
   if (opts.generate_name.empty() || opts.generate_name == "-") {
-    std::cout << input.data;
+    std::cout << input.data << std::flush;
+    if (!std::cout) {
+      return absl::DataLossError("Cannot write the expansion to the standard output.");
+    }
     return absl::OkStatus();
   }
   return mbo::file::SetContents(opts.generate_name, input.data);
-- 
2.43.0


From 488e165884cf17836a56efafb3aa4428739dd561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:23 +0000
Subject: [PATCH 13/43] fix: pointers to template sections stay valid when
 sections are added

---
 mbo/mope/mope.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbo/mope/mope.h b/mbo/mope/mope.h
index 0100016..8e1028f 100644
--- a/mbo/mope/mope.h
+++ b/mbo/mope/mope.h
@@ -16,6 +16,7 @@
 #ifndef MBO_MOPE_MOPE_H_
 #define MBO_MOPE_MOPE_H_
 
+#include <list>
 #include <optional>
 #include <string>
 #include <string_view>
@@ -85,7 +86,7 @@ class Template {
 
   struct Section {
     mutable std::string join;
-    std::vector<Template> dictionary;
+    std::list<Template> dictionary;  // `AddSection` returns pointers to the elements, they must stay valid.
   };
 
   struct Range : mbo::types::Extend<Range> {
-- 
2.43.0


From 83643579996d887cfe90a8715f664d30f2b46512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:51 +0000
Subject: [PATCH 14/43] fix: expanding a const template does not write to it

---
 mbo/mope/mope.cc | 17 +++++++++++------
 mbo/mope/mope.h  |  7 +++++--
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index e9c3407..a2f34f9 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -252,7 +252,11 @@ absl::Status Template::ExpandRangeData(
   return result;
 }
 
-absl::Status Template::ExpandSection(const TagData<Section>& tag, Context& ctx, std::string& output) {
+absl::Status Template::ExpandSection(
+    const TagData<Section>& tag,
+    std::string_view join,
+    Context& ctx,
+    std::string& output) {
   const std::string original(std::move(output));
   output = "";
   bool first = true;
@@ -260,7 +264,7 @@ absl::Status Template::ExpandSection(const TagData<Section>& tag, Context& ctx,
     std::string result(original);
     MBO_RETURN_IF_ERROR(section.ExpandInternal(ctx, result));
     if (!first) {
-      output.append(tag.data.join);
+      output.append(join);
     }
     first = false;
     output.append(result);
@@ -349,12 +353,13 @@ absl::Status Template::ExpandSectionTag(const TagInfo& tag, Context& ctx, std::s
         .remove_quotes = true,
         .allow_unquoted = false,
     };
-    std::string_view join;
+    std::string_view option;
     if (tag.option.has_value()) {
-      join = *tag.option;
+      option = *tag.option;
     }
-    MBO_ASSIGN_OR_RETURN(section->data.join, ParseString(kOptions, join));
-    return ExpandSection(*section, ctx, output);
+    // The template is `const` and may be shared, so the joiner belongs to this expansion only.
+    MBO_ASSIGN_OR_RETURN(const std::string join, ParseString(kOptions, option));
+    return ExpandSection(*section, join, ctx, output);
   }
   static constexpr LazyRE2 kReFor = {
       .pattern_ =
diff --git a/mbo/mope/mope.h b/mbo/mope/mope.h
index 8e1028f..4d258c7 100644
--- a/mbo/mope/mope.h
+++ b/mbo/mope/mope.h
@@ -85,7 +85,6 @@ class Template {
   };
 
   struct Section {
-    mutable std::string join;
     std::list<Template> dictionary;  // `AddSection` returns pointers to the elements, they must stay valid.
   };
 
@@ -158,7 +157,11 @@ class Template {
 
   absl::Status ExpandInternal(Context& ctx, std::string& output) const;
 
-  static absl::Status ExpandSection(const TagData<Section>& tag, Context& ctx, std::string& output);
+  static absl::Status ExpandSection(
+      const TagData<Section>& tag,
+      std::string_view join,
+      Context& ctx,
+      std::string& output);
 
   template<typename Sink>
   friend void AbslStringify(Sink& /*sink*/, TagType /*tag*/);
-- 
2.43.0


From 3d0a95697229b548789dbaa5e5461f02f0118e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 15/43] fix: moving from OptionalDataOrRef destroys the
 moved-from value

---
 mbo/types/optional_data_or_ref.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index e5c21ea..4e889df 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -103,8 +103,7 @@ class OptionalDataOrRef {
   {
     if (other.is_val_) {
       emplace(std::move(other.union_.val));
-      other.is_val_ = false;
-      other.union_.ptr = nullptr;
+      other.Destruct();
     } else {
       Destruct(other.union_.ptr);
     }
@@ -113,17 +112,19 @@ class OptionalDataOrRef {
   constexpr OptionalDataOrRef& operator=(OptionalDataOrRef&& other)
   requires std::move_constructible<T>
   {
+    if (this == &other) {
+      return *this;
+    }
     if (other.is_val_) {
       emplace(std::move(other.union_.val));
-      other.is_val_ = false;
-      other.union_.ptr = nullptr;
+      other.Destruct();
     } else {
       Destruct(other.union_.ptr);
     }
     return *this;
   }
 
-  constexpr OptionalDataOrRef& operator=(std::nullopt_t /* unused */) { reset(); }
+  constexpr OptionalDataOrRef& operator=(std::nullopt_t /* unused */) { return reset(); }
 
   constexpr OptionalDataOrRef& operator=(value_type&& v) {
     emplace(std::move(v));
-- 
2.43.0


From 8e0ccda161018ce32bd9b9fbc80a661e9b17bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 16/43] fix: Required::emplace keeps its value if constructing
 the new one throws

---
 mbo/types/required.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mbo/types/required.h b/mbo/types/required.h
index 93f4b42..30764c0 100644
--- a/mbo/types/required.h
+++ b/mbo/types/required.h
@@ -18,6 +18,7 @@
 
 #include <compare>   // IWYU pragma: keep
 #include <concepts>  // IWYU pragma: keep
+#include <type_traits>
 #include <utility>
 
 #include "absl/hash/hash.h"
@@ -95,9 +96,14 @@ class Required {
   template<typename... Args>
   requires(ConstructibleFrom<T, Args...>)
   constexpr Required& emplace(Args&&... args) {  // NOLINT(readability-identifier-naming)
-    value_.~T();
-    new (&value_) T(std::forward<Args>(args)...);
-    return *this;
+    if constexpr (std::is_nothrow_move_constructible_v<T> && !std::is_nothrow_constructible_v<T, Args...>) {
+      // If the construction throws (or uses the current value), then the current value must still be present.
+      return emplace(T(std::forward<Args>(args)...));
+    } else {
+      value_.~T();
+      new (&value_) T(std::forward<Args>(args)...);
+      return *this;
+    }
   }
 
   constexpr T& get() noexcept { return value_; }  // NOLINT(*-identifier-naming)
-- 
2.43.0


From d51eb0617b18d7247e7bac4cde8344d2d95e0925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 17/43] fix: LimitedVector owns each element exactly once

---
 mbo/container/limited_vector.h | 196 ++++++++++++++++++++-------------
 1 file changed, 120 insertions(+), 76 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 5efcb89..4aacdf0 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -146,8 +146,9 @@ class LimitedVector final {
   constexpr LimitedVector& operator=(const LimitedVector& other) noexcept {
     if (this != &other) {
       clear();
-      size_ = other.size_;
-      values_ = other.values_;
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), other.values_[size_].data);
+      }
     }
     return *this;
   }
@@ -157,16 +158,19 @@ class LimitedVector final {
       std::construct_at(
           const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   constexpr LimitedVector& operator=(LimitedVector&& other) noexcept {
+    if (this == &other) {
+      return *this;
+    }
     clear();
     for (; size_ < other.size_; ++size_) {
       std::construct_at(
           const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
     return *this;
   }
 
@@ -174,13 +178,13 @@ class LimitedVector final {
 
   template<std::forward_iterator It>
   requires types::ConstructibleFrom<T, mbo::types::ForwardIteratorValueType<It>>
-  constexpr LimitedVector(It begin, It end) noexcept {
+  constexpr LimitedVector(It begin, It end) noexcept(!kRequireThrows) : LimitedVector() {
     while (begin < end) {
       emplace_back(*begin++);
     }
   }
 
-  constexpr LimitedVector(const std::initializer_list<T>& list) noexcept {
+  constexpr LimitedVector(const std::initializer_list<T>& list) noexcept(!kRequireThrows) : LimitedVector() {
     auto it = list.begin();
     while (it < list.end()) {
       emplace_back(*it++);
@@ -188,7 +192,7 @@ class LimitedVector final {
   }
 
   template<types::ConstructibleInto<T> U>
-  constexpr LimitedVector(const std::initializer_list<U>& list) noexcept {
+  constexpr LimitedVector(const std::initializer_list<U>& list) noexcept(!kRequireThrows) : LimitedVector() {
     auto it = list.begin();
     while (it < list.end()) {
       emplace_back(*it++);
@@ -228,7 +232,7 @@ class LimitedVector final {
     for (; size_ < other.size(); ++size_) {
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.at(size_)));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   template<types::ConstructibleInto<T> U, auto OtherN>
@@ -240,7 +244,7 @@ class LimitedVector final {
     for (; size_ < other.size(); ++size_) {
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.at(size_)));
     }
-    other.size_ = 0;
+    other.clear();
     return *this;
   }
 
@@ -252,10 +256,9 @@ class LimitedVector final {
     }
   }
 
-  constexpr void resize(std::size_t new_size) noexcept {
-    while (new_size < size()) {
-      pop_back();
-    }
+  constexpr void resize(std::size_t new_size) noexcept(!kRequireThrows) {
+    MBO_CONFIG_REQUIRE(new_size <= Capacity, "Cannot resize beyond capacity.");
+    resize_down(new_size);
     while (new_size > size()) {
       push_back({});
     }
@@ -271,87 +274,83 @@ class LimitedVector final {
 
   template<typename U, auto OtherN>
   requires(std::same_as<T, U> && MakeLimitedOptions<OtherN>().kCapacity <= Capacity)
-  constexpr void swap(LimitedVector<U, OtherN>& other) noexcept {
-    std::size_t pos = 0;
-    for (; pos < size_ && pos < other.size(); ++pos) {
-      std::swap(values_[pos].data, other.at(pos));
-    }
-    const std::size_t other_size = other.size_;
-    const std::size_t this_size = size_;
-    for (; pos < size_; ++pos) {
+  constexpr void swap(LimitedVector<U, OtherN>& other) noexcept(!kRequireThrows) {
+    MBO_CONFIG_REQUIRE(size_ <= other.capacity() && other.size() <= Capacity, "Cannot swap beyond capacity.");
+    const std::size_t min_size = std::min(size_, other.size_);
+    for (std::size_t pos = 0; pos < min_size; ++pos) {
+      std::swap(values_[pos].data, other.values_[pos].data);
+    }
+    // At most one of the two has more elements. Those move over and then get destroyed here.
+    for (std::size_t pos = min_size; pos < size_; ++pos) {
       other.emplace_back(std::move(values_[pos].data));
     }
-    for (; pos < other.size(); ++pos) {
-      emplace_back(std::move(other.at(pos)));
+    if (size_ > min_size) {
+      resize_down(min_size);
+      return;
     }
-    size_ = other_size;
-    other.size_ = this_size;
+    for (std::size_t pos = min_size; pos < other.size_; ++pos) {
+      emplace_back(std::move(other.values_[pos].data));
+    }
+    other.resize_down(min_size);
   }
 
   template<typename... Args>
   constexpr iterator emplace(const_iterator pos, Args&&... args) noexcept(!kRequireThrows) {
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
     MBO_CONFIG_REQUIRE(&values_[0].data <= pos && pos <= &values_[size_].data, "Invalid `pos`.");
-    iterator dst = end();
-    for (; dst > pos; --dst) {
-      *dst = std::move(*std::prev(dst));
-    }
-    std::construct_at(const_cast<std::remove_const_t<T>*>(dst), std::forward<Args>(args)...);
-    ++size_;
+    // Create the value first: The arguments may refer to elements that are about to move.
+    std::remove_const_t<T> value(std::forward<Args>(args)...);
+    const iterator dst = const_cast<iterator>(pos);  // NOLINT(cppcoreguidelines-pro-type-const-cast)
+    const Gap gap(*this, pos, 1);
+    emplace_back(std::move(value));
     return dst;
   }
 
   constexpr iterator erase(const_iterator pos) noexcept(!kRequireThrows) {
-    // NOLINTBEGIN(cppcoreguidelines-pro-type-const-cast)
     MBO_CONFIG_REQUIRE(&values_[0].data <= pos && pos < &values_[size_].data, "Invalid `pos`.");
-    auto dst = const_cast<iterator>(pos);
-    --size_;
-    std::destroy_at(dst);
-    for (; dst < end(); ++dst) {
-      *dst = std::move(*std::next(dst));
-    }
-    return pos > end() ? end() : const_cast<iterator>(pos);
-    // NOLINTEND(cppcoreguidelines-pro-type-const-cast)
+    return erase(pos, std::next(pos));
   }
 
   constexpr iterator erase(const_iterator first, const_iterator last) noexcept(!kRequireThrows) {
-    // NOLINTBEGIN(cppcoreguidelines-pro-type-const-cast)
     MBO_CONFIG_REQUIRE(
         &values_[0].data <= first && first <= last && last <= &values_[size_].data, "Invalid `first` or `last`.");
-    std::size_t deleted = 0;
-    for (const_iterator it = first; it < last; ++it) {
-      std::destroy_at(it);
-      ++deleted;
+    if (first == last) {
+      return const_cast<iterator>(first);  // NOLINT(cppcoreguidelines-pro-type-const-cast)
+    }
+    std::size_t dst = index_of(first);
+    std::size_t src = index_of(last);
+    for (std::size_t pos = dst; pos < src; ++pos) {
+      std::destroy_at(&values_[pos].data);
     }
-    auto dst = const_cast<iterator>(first);
-    auto src = const_cast<iterator>(last);
-    for (; src < end(); ++src, ++dst) {
-      *dst = std::move(*src);
+    for (; src < size_; ++src, ++dst) {
+      relocate(src, dst);
     }
-    size_ -= deleted;
-    return const_cast<iterator>(first);
-    // NOLINTEND(cppcoreguidelines-pro-type-const-cast)
+    size_ = dst;
+    return const_cast<iterator>(first);  // NOLINT(cppcoreguidelines-pro-type-const-cast)
   }
 
   template<typename... Args>
   constexpr reference emplace_back(Args&&... args) noexcept(!kRequireThrows) {
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace_back` at capacity.");
-    auto& data_ref{values_[size_++]};
+    auto& data_ref{values_[size_]};
     std::construct_at(const_cast<std::remove_const_t<T>*>(&data_ref.data), std::forward<Args>(args)...);
+    ++size_;
     return data_ref.data;
   }
 
   constexpr reference push_back(T&& val) noexcept(!kRequireThrows) {
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `push_back` at capacity.");
-    auto& data_ref{values_[size_++]};
+    auto& data_ref{values_[size_]};
     std::construct_at(const_cast<std::remove_const_t<T>*>(&data_ref.data), std::move(val));
+    ++size_;
     return data_ref.data;
   }
 
   constexpr reference push_back(const T& val) noexcept(!kRequireThrows) {
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `push_back` at capacity.");
-    auto& data_ref{values_[size_++]};
+    auto& data_ref{values_[size_]};
     std::construct_at(const_cast<std::remove_const_t<T>*>(&data_ref.data), val);
+    ++size_;
     return data_ref.data;
   }
 
@@ -360,7 +359,8 @@ class LimitedVector final {
     std::destroy_at(&values_[--size_].data);
   }
 
-  constexpr void assign(std::size_t num, const T& value) noexcept {
+  constexpr void assign(std::size_t num, const T& value) noexcept(!kRequireThrows) {
+    MBO_CONFIG_REQUIRE(num <= Capacity, "Called `assign` at capacity.");
     clear();
     for (; num > 0; --num) {
       push_back(value);
@@ -368,10 +368,11 @@ class LimitedVector final {
   }
 
   template<std::forward_iterator It>
-  constexpr void assign(It begin, It end) noexcept {
+  constexpr void assign(It begin, It end) noexcept(!kRequireThrows) {
+    MBO_CONFIG_REQUIRE(static_cast<std::size_t>(std::distance(begin, end)) <= Capacity, "Called `assign` at capacity.");
     clear();
     while (begin < end) {
-      emplace_back(std::forward<mbo::types::ForwardIteratorValueType<It>>(*begin++));
+      emplace_back(*begin++);
     }
   }
 
@@ -391,22 +392,25 @@ class LimitedVector final {
     // Clang does not like `std::distance`. The issue is that the iterators point into the union.
     // That makes them technically not point into an array AND that is indeed not allowed by C++.
     const auto dst = const_cast<iterator>(pos);  // NOLINT(cppcoreguidelines-pro-type-const-cast)
-    move_backward(dst, 1);
-    std::construct_at(const_cast<std::remove_const_t<T>*>(&*dst), std::forward<U>(value));
+    // Create the value first: `value` may refer to an element that is about to move.
+    std::remove_const_t<T> new_value(std::forward<U>(value));
+    const Gap gap(*this, pos, 1);
+    emplace_back(std::move(new_value));
     return dst;
   }
 
   constexpr iterator insert(const_iterator pos, size_type count, const T& value) {
-    MBO_CONFIG_REQUIRE(size_ + count <= Capacity, "Called `insert` at capacity.");
+    MBO_CONFIG_REQUIRE(count <= Capacity - size_, "Called `insert` at capacity.");
     MBO_CONFIG_REQUIRE(begin() <= pos && pos <= end(), "Invalid `pos`.");
     const auto dst = const_cast<iterator>(pos);  // NOLINT(cppcoreguidelines-pro-type-const-cast)
     if (count == 0) {
       return dst;
     }
-    std::size_t index = move_backward(dst, count);
+    // Copy the value first: `value` may refer to an element that is about to move.
+    const std::remove_const_t<T> new_value(value);
+    const Gap gap(*this, pos, count);
     while (count > 0) {
-      std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[index].data), value);
-      ++index;
+      emplace_back(new_value);
       --count;
     }
     return dst;
@@ -420,15 +424,14 @@ class LimitedVector final {
     MBO_CONFIG_REQUIRE(begin() <= pos && pos <= end(), "Invalid `pos`.");
     MBO_CONFIG_REQUIRE(first <= last, "First > Last.");
     std::size_t count = std::distance(first, last);
-    MBO_CONFIG_REQUIRE(size_ + count <= Capacity, "Called `insert` at capacity.");
+    MBO_CONFIG_REQUIRE(count <= Capacity - size_, "Called `insert` at capacity.");
     const auto dst = const_cast<iterator>(pos);  // NOLINT(*-pro-type-const-cast)
     if (count == 0) {
       return dst;
     }
-    std::size_t index = move_backward(dst, count);
+    const Gap gap(*this, pos, count);
     while (count) {
-      std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[index].data), *first);
-      ++index;
+      emplace_back(*first);
       --count;
       ++first;
     }
@@ -505,14 +508,55 @@ class LimitedVector final {
   constexpr const_pointer data() const noexcept { return &values_[0].data; }
 
  private:
-  constexpr std::size_t move_backward(iterator dst, std::size_t count) {
-    std::size_t pos = size_;
-    while (dst < &values_[pos].data) {
-      --pos;
-      std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[pos + count].data), std::move(values_[pos].data));
-    }
-    size_ += count;
-    return pos;
+  // Opens a gap of `count` unused elements at `pos`, by moving all elements from there on back, so that appending then
+  // fills the gap. On destruction the moved elements follow whatever was appended, also if appending failed early.
+  class Gap final {
+   public:
+    constexpr Gap(LimitedVector& vec, const_iterator pos, std::size_t count) noexcept
+        : vec_(vec), num_moved_(vec.size_ - vec.index_of(pos)), moved_(vec.size_ - num_moved_ + count) {
+      for (std::size_t num = num_moved_; num > 0; --num) {
+        vec_.relocate(vec_.size_ - num_moved_ + num - 1, moved_ + num - 1);
+      }
+      vec_.size_ -= num_moved_;
+    }
+
+    constexpr ~Gap() noexcept {
+      for (std::size_t num = 0; vec_.size_ != moved_ && num < num_moved_; ++num) {
+        vec_.relocate(moved_ + num, vec_.size_ + num);
+      }
+      vec_.size_ += num_moved_;
+    }
+
+    Gap(const Gap&) = delete;
+    Gap& operator=(const Gap&) = delete;
+    Gap(Gap&&) = delete;
+    Gap& operator=(Gap&&) = delete;
+
+   private:
+    LimitedVector& vec_;
+    const std::size_t num_moved_;
+    const std::size_t moved_;
+  };
+
+  // Moves the element at `from` to the unused element at `to`.
+  constexpr void relocate(std::size_t from, std::size_t to) noexcept {
+    std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[to].data), std::move(values_[from].data));
+    std::destroy_at(&values_[from].data);
+  }
+
+  constexpr void resize_down(std::size_t new_size) noexcept {
+    while (new_size < size_) {
+      pop_back();
+    }
+  }
+
+  // The iterators point into the union, so that `std::distance` is not available at compile time.
+  constexpr std::size_t index_of(const_iterator pos) const noexcept {
+    std::size_t index = size_;
+    while (pos < &values_[index].data) {
+      --index;
+    }
+    return index;
   }
 
   std::size_t size_{0};
-- 
2.43.0


From edfc13daf647d6060d6427f73404ad912915de5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 18/43] fix: LimitedSet and LimitedMap own each element exactly
 once

---
 mbo/container/internal/limited_ordered.h | 229 +++++++++++++----------
 mbo/container/limited_map.h              |   8 +-
 mbo/container/limited_set.h              |   8 +-
 3 files changed, 137 insertions(+), 108 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 7c3b545..c9ddb3b 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -417,7 +417,7 @@ class [[nodiscard]] LimitedOrdered {
 
   // NOLINTBEGIN(cppcoreguidelines-pro-type-const-cast)
 
-  constexpr LimitedOrdered(const LimitedOrdered& other) noexcept {
+  constexpr LimitedOrdered(const LimitedOrdered& other) noexcept : key_comp_(other.key_comp_) {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), other.values_[size_].data);
     }
@@ -426,25 +426,30 @@ class [[nodiscard]] LimitedOrdered {
   constexpr LimitedOrdered& operator=(const LimitedOrdered& other) noexcept {
     if (this != &other) {
       clear();
-      size_ = other.size_;
-      values_ = other.values_;
+      assign_compare(other.key_comp_);
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(const_cast<RawValue*>(&values_[size_].data), other.values_[size_].data);
+      }
     }
     return *this;
   }
 
-  constexpr LimitedOrdered(LimitedOrdered&& other) noexcept {
+  constexpr LimitedOrdered(LimitedOrdered&& other) noexcept : key_comp_(other.key_comp_) {
     for (; size_ < other.size_; ++size_) {
-      std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
+      construct_from(values_[size_], std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   constexpr LimitedOrdered& operator=(LimitedOrdered&& other) noexcept {
-    clear();
-    for (; size_ < other.size_; ++size_) {
-      std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
+    if (this != &other) {
+      clear();
+      assign_compare(other.key_comp_);
+      for (; size_ < other.size_; ++size_) {
+        construct_from(values_[size_], std::move(other.values_[size_].data));
+      }
+      other.clear();
     }
-    other.size_ = 0;
     return *this;
   }
 
@@ -453,13 +458,15 @@ class [[nodiscard]] LimitedOrdered {
   template<std::forward_iterator It>
   requires types::ConstructibleFrom<RawValue, mbo::types::ForwardIteratorValueType<It>>
   constexpr LimitedOrdered(It first, It last, const Compare& key_comp = Compare()) noexcept(!kRequireThrows)
-      : key_comp_(key_comp) {
+      : LimitedOrdered(key_comp) {
     if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
       MBO_CONFIG_REQUIRE(std::is_sorted(first, last, key_comp_), "Flag `kRequireSortedInput` violated.");
     }
     while (first < last) {
       if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
-        std::construct_at(const_cast<RawValue*>(&values_[size_++].data), *first);
+        MBO_CONFIG_REQUIRE(size_ < Capacity, "Too many input values.");
+        std::construct_at(const_cast<RawValue*>(&values_[size_].data), *first);
+        ++size_;
       } else {
         emplace(*first);
       }
@@ -467,12 +474,14 @@ class [[nodiscard]] LimitedOrdered {
     }
   }
 
-  constexpr LimitedOrdered(const std::initializer_list<value_type>& list, const Compare& key_comp = Compare()) noexcept
+  constexpr LimitedOrdered(const std::initializer_list<value_type>& list, const Compare& key_comp = Compare()) noexcept(
+      !kRequireThrows)
       : LimitedOrdered(list.begin(), list.end(), key_comp) {}
 
   template<types::ConstructibleInto<value_type> U>
   requires(!std::same_as<U, value_type>)
-  constexpr LimitedOrdered(const std::initializer_list<U>& list, const Compare& key_comp = Compare()) noexcept
+  constexpr LimitedOrdered(const std::initializer_list<U>& list, const Compare& key_comp = Compare()) noexcept(
+      !kRequireThrows)
       : LimitedOrdered(list.begin(), list.end(), key_comp) {}
 
   template<types::ConstructibleInto<value_type> U, auto OtherN>
@@ -888,74 +897,74 @@ class [[nodiscard]] LimitedOrdered {
         std::swap(values_[pos].data.second, other.values_[pos].data.second);
       }
     }
-    const std::size_t other_size = other.size_;
-    const std::size_t this_size = size_;
+    // At most one of the two has more elements. Those move over, keeping their order, and then get destroyed here.
     for (; pos < size_; ++pos) {
-      other.emplace(std::move(values_[pos].data));
+      other.construct_from(other.values_[pos], std::move(values_[pos].data));
+      std::destroy_at(&values_[pos].data);
     }
-    for (; pos < other.size(); ++pos) {
-      emplace(std::move(other.values_[pos].data));
+    for (; pos < other.size_; ++pos) {
+      construct_from(values_[pos], std::move(other.values_[pos].data));
+      std::destroy_at(&other.values_[pos].data);
+    }
+    std::swap(size_, other.size_);
+    if constexpr (!std::is_empty_v<key_compare>) {
+      const key_compare this_comp = key_comp_;
+      assign_compare(other.key_comp_);
+      other.assign_compare(this_comp);
     }
-    size_ = other_size;
-    other.size_ = this_size;
   }
 
   template<typename... Args>
   constexpr std::pair<iterator, bool> emplace(Args&&... args) noexcept(!kRequireThrows) {
-    const RawValue new_val(std::forward<Args>(args)...);
+    RawValue new_val(std::forward<Args>(args)...);
     const iterator dst = lower_bound(GetKey(new_val));
     if (dst != end() && !key_comp_(GetKey(*dst), GetKey(new_val)) && !key_comp_(GetKey(new_val), GetKey(*dst))) {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
-    std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
-    ++size_;
+    insert_at(dst, std::move(new_val));
     return std::make_pair(dst, true);
   }
 
   template<typename It>
   requires IsIterator<It>::value
   constexpr iterator erase(It pos) noexcept(!kRequireThrows) {
-    MBO_CONFIG_REQUIRE(begin() <= pos && pos < end(), "Invalid `pos`.");
-    auto dst = to_iterator(pos);
-    --size_;
-    std::destroy_at(&*dst);
-    for (; dst < end(); ++dst) {
-      std::construct_at(const_cast<RawValue*>(&*dst), std::move(*std::next(dst)));
-    }
-    return pos > end() ? end() : to_iterator(pos);
+    const const_iterator first(pos);
+    MBO_CONFIG_REQUIRE(cbegin() <= first && first < cend(), "Invalid `pos`.");
+    return erase(first, first + 1);
   }
 
-  constexpr iterator erase(const_iterator first, const_iterator last) noexcept(!kRequireThrows) {
-    MBO_CONFIG_REQUIRE(begin() <= first && first <= last && last <= end(), "Invalid `first` or `last`.");
-    std::size_t deleted = 0;
-    for (const_iterator it = first; it < last; ++it) {
-      std::destroy_at(it);
-      ++deleted;
-    }
-    auto dst = to_iterator(first);
-    auto src = to_iterator(last);
-    for (; src < end(); ++src, ++dst) {
-      *dst = std::move(*src);
-    }
-    size_ -= deleted;
-    return to_iterator(first);
+  template<typename It>
+  requires IsIterator<It>::value
+  constexpr iterator erase(It first, It last) noexcept(!kRequireThrows) {
+    const const_iterator first_pos(first);
+    const const_iterator last_pos(last);
+    MBO_CONFIG_REQUIRE(
+        cbegin() <= first_pos && first_pos <= last_pos && last_pos <= cend(), "Invalid `first` or `last`.");
+    const iterator result = to_iterator(first_pos);
+    if (first_pos == last_pos) {
+      return result;
+    }
+    std::size_t dst = first_pos - cbegin();
+    std::size_t src = last_pos - cbegin();
+    for (std::size_t pos = dst; pos < src; ++pos) {
+      std::destroy_at(&values_[pos].data);
+    }
+    for (; src < size_; ++src, ++dst) {
+      relocate(src, dst);
+    }
+    size_ = dst;
+    return result;
   }
 
   constexpr size_type erase(const Key& key) {
-    size_type count = 0;
-    while (true) {
-      auto pos = find(key);
-      if (pos == end()) {
-        break;
-      }
-      erase(pos);
-      ++count;
+    // Keys are unique. Further `key` may refer to the element that gets erased.
+    const auto pos = find(key);
+    if (pos == end()) {
+      return 0;
     }
-    return count;
+    erase(pos);
+    return 1;
   }
 
   // Erase by a key that is NOT this container's key type.
@@ -976,14 +985,11 @@ class [[nodiscard]] LimitedOrdered {
       // Nothing to convert: `find` compares the foreign key directly, so no `Key` is
       // ever built. `key` is therefore never forwarded - there is no target to move
       // into - which is what the NOLINT above is about.
-      while (true) {
-        auto pos = find(key);
-        if (pos == end()) {
-          break;
-        }
-        erase(pos);
-        ++count;
-      }
+      //
+      // All matches are found before anything gets erased as `key` may refer to (parts of) an element.
+      const auto [first, last] = equal_range(key);
+      count = last - first;
+      erase(first, last);
     } else {
       // A `Key` has to be materialised, because the comparator can only compare keys.
       //
@@ -1000,14 +1006,7 @@ class [[nodiscard]] LimitedOrdered {
       //   * `find(std::forward<K>(key))` inside the loop:   3 move-conversions (and unsound)
       //   * forwarded once into this binding:               1 conversion, a move for an rvalue
       const Key& key_ref = std::forward<K>(key);
-      while (true) {
-        auto pos = find(key_ref);
-        if (pos == end()) {
-          break;
-        }
-        erase(pos);
-        ++count;
-      }
+      count = erase(key_ref);
     }
     return count;
   }
@@ -1031,17 +1030,12 @@ class [[nodiscard]] LimitedOrdered {
   constexpr std::pair<iterator, bool> try_emplace(const Key& key, Args&&... args) {
     const iterator dst = lower_bound(key);
     if (dst != end() && !key_comp_(dst->first, key) && !key_comp_(key, dst->first)) {
-      dst->second = Mapped(args...);
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
-    std::construct_at(
-        const_cast<RawValue*>(&*dst), std::piecewise_construct, std::forward_as_tuple(key),
-        std::forward_as_tuple(std::forward<Args>(args)...));
-    ++size_;
+    RawValue new_val(
+        std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(std::forward<Args>(args)...));
+    insert_at(dst, std::move(new_val));
     return std::make_pair(dst, true);
   }
 
@@ -1050,17 +1044,13 @@ class [[nodiscard]] LimitedOrdered {
   constexpr std::pair<iterator, bool> try_emplace(Key&& key, Args&&... args) {
     const iterator dst = lower_bound(key);
     if (dst != end() && !key_comp_(dst->first, key) && !key_comp_(key, dst->first)) {
-      dst->second = Mapped(args...);
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
     // Should possibly use: std::piecewise_construct, std::move(key), std::forward_as_tuple(std::forward<Args>(args)...)
     // But that creates issues with conversion. However, we know the two types, so we do not need piecewise.
-    std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), Mapped(std::forward<Args>(args)...));
-    ++size_;
+    RawValue new_val(std::move(key), Mapped(std::forward<Args>(args)...));
+    insert_at(dst, std::move(new_val));
     return std::make_pair(dst, true);
   }
 
@@ -1073,11 +1063,8 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `insert_or_assign` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
-    std::construct_at(const_cast<RawValue*>(&*dst), key, std::forward<V>(value));
-    ++size_;
+    RawValue new_val(key, std::forward<V>(value));
+    insert_at(dst, std::move(new_val));
     return std::make_pair(dst, true);
   }
 
@@ -1090,11 +1077,8 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
-    std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), std::forward<V>(value));
-    ++size_;
+    RawValue new_val(std::move(key), std::forward<V>(value));
+    insert_at(dst, std::move(new_val));
     return std::make_pair(dst, true);
   }
 
@@ -1146,14 +1130,14 @@ class [[nodiscard]] LimitedOrdered {
 
   // Observers
 
-  constexpr key_compare key_comp() const noexcept { return key_comp; }
+  constexpr key_compare key_comp() const noexcept { return key_comp_; }
 
   constexpr value_compare value_comp() const noexcept { return val_comp_; }
 
  protected:
   static constexpr iterator to_iterator(iterator pos) noexcept { return pos; }
 
-  static constexpr iterator to_iterator(const const_iterator& pos) noexcept { return iterator(pos.pos); }
+  constexpr iterator to_iterator(const const_iterator& pos) noexcept { return iterator(&values_[pos - cbegin()]); }
 
   // NOLINTNEXTLINE(bugprone-return-const-ref-from-parameter)
   static constexpr const Key& GetKey(const Key& key) noexcept { return key; }
@@ -1173,14 +1157,55 @@ class [[nodiscard]] LimitedOrdered {
   }
 
  private:
+  // Constructs the unused element `dst` from `src` which is about to be destroyed. That allows to also move its key.
+  template<typename OtherValue>
+  static constexpr void construct_from(Data& dst, OtherValue&& src) noexcept {
+    if constexpr (kKeyOnly || !std::same_as<OtherValue, RawValue>) {
+      std::construct_at(const_cast<RawValue*>(&dst.data), std::forward<OtherValue>(src));
+    } else if (std::is_constant_evaluated()) {
+      std::construct_at(const_cast<RawValue*>(&dst.data), std::forward<OtherValue>(src));
+    } else {
+      std::construct_at(
+          const_cast<RawValue*>(&dst.data), std::piecewise_construct,
+          std::forward_as_tuple(std::move(const_cast<std::remove_const_t<Key>&>(src.first))),
+          std::forward_as_tuple(std::move(src.second)));
+    }
+  }
+
+  // Moves the element at `from` to the unused element at `to`.
+  constexpr void relocate(std::size_t from, std::size_t to) noexcept {
+    construct_from(values_[to], std::move(values_[from].data));
+    std::destroy_at(&values_[from].data);
+  }
+
+  // Inserts the new `value` at `pos` where the caller ensured that it fits there.
+  constexpr void insert_at(iterator pos, RawValue&& value) noexcept {
+    const std::size_t index = pos - begin();
+    for (std::size_t next = size_; next > index; --next) {
+      relocate(next - 1, next);
+    }
+    construct_from(values_[index], std::move(value));
+    ++size_;
+  }
+
+  constexpr void assign_compare(const key_compare& key_comp) noexcept {
+    if constexpr (!std::is_empty_v<key_compare>) {
+      std::destroy_at(&key_comp_);
+      std::construct_at(&key_comp_, key_comp);
+      std::destroy_at(&val_comp_);
+      std::construct_at(&val_comp_, key_comp);
+    }
+  }
+
   std::size_t size_{0};
 
   // Array would be better but that does not work with ASAN builds.
   // std::array<Data, Capacity == 0 ? 1 : Capacity> values_;
   Data values_[Capacity == 0 ? 1 : Capacity];  // NOLINT(*-avoid-c-arrays)
 
-  const key_compare key_comp_ = {};
-  const value_compare val_comp_ = value_compare(key_comp_);
+  // Not `const`, as assigning and swapping also applies to the (stateful) comparators.
+  key_compare key_comp_ = {};
+  value_compare val_comp_ = value_compare(key_comp_);
 };
 
 // NOLINTEND(readability-identifier-naming)
diff --git a/mbo/container/limited_map.h b/mbo/container/limited_map.h
index c5b895b..fd8b75f 100644
--- a/mbo/container/limited_map.h
+++ b/mbo/container/limited_map.h
@@ -109,15 +109,17 @@ class LimitedMap final
 
   template<std::forward_iterator It>
   requires types::ConstructibleFrom<KeyValueType, mbo::types::ForwardIteratorValueType<It>>
-  constexpr LimitedMap(It begin, It end, const KeyComp& key_comp = KeyComp()) noexcept
+  constexpr LimitedMap(It begin, It end, const KeyComp& key_comp = KeyComp()) noexcept(!LimitedBase::kRequireThrows)
       : LimitedBase(begin, end, key_comp) {}
 
-  constexpr LimitedMap(const std::initializer_list<KeyValueType>& list, const KeyComp& key_comp = KeyComp()) noexcept
+  constexpr LimitedMap(const std::initializer_list<KeyValueType>& list, const KeyComp& key_comp = KeyComp()) noexcept(
+      !LimitedBase::kRequireThrows)
       : LimitedBase(list, key_comp) {}
 
   template<types::ConstructibleInto<KeyValueType> U>
   requires(!std::same_as<U, KeyValueType>)
-  constexpr LimitedMap(const std::initializer_list<U>& list, const KeyComp& key_comp = KeyComp()) noexcept
+  constexpr LimitedMap(const std::initializer_list<U>& list, const KeyComp& key_comp = KeyComp()) noexcept(
+      !LimitedBase::kRequireThrows)
       : LimitedBase(list, key_comp) {}
 
   template<types::ConstructibleInto<KeyValueType> U, auto OtherN>
diff --git a/mbo/container/limited_set.h b/mbo/container/limited_set.h
index 3f48364..079775b 100644
--- a/mbo/container/limited_set.h
+++ b/mbo/container/limited_set.h
@@ -93,15 +93,17 @@ class LimitedSet final : public container_internal::LimitedOrdered<Key, Key, Key
 
   template<std::forward_iterator It>
   requires types::ConstructibleFrom<Key, mbo::types::ForwardIteratorValueType<It>>
-  constexpr LimitedSet(It begin, It end, const Compare& key_comp = Compare()) noexcept
+  constexpr LimitedSet(It begin, It end, const Compare& key_comp = Compare()) noexcept(!LimitedBase::kRequireThrows)
       : LimitedBase(begin, end, key_comp) {}
 
-  constexpr LimitedSet(const std::initializer_list<Key>& list, const Compare& key_comp = Compare()) noexcept
+  constexpr LimitedSet(const std::initializer_list<Key>& list, const Compare& key_comp = Compare()) noexcept(
+      !LimitedBase::kRequireThrows)
       : LimitedBase(list, key_comp) {}
 
   template<types::ConstructibleInto<Key> U>
   requires(!std::same_as<U, Key>)
-  constexpr LimitedSet(const std::initializer_list<U>& list, const Compare& key_comp = Compare()) noexcept
+  constexpr LimitedSet(const std::initializer_list<U>& list, const Compare& key_comp = Compare()) noexcept(
+      !LimitedBase::kRequireThrows)
       : LimitedBase(list, key_comp) {}
 
   template<types::ConstructibleInto<Key> U, auto OtherN>
-- 
2.43.0


From cf45f7ad575f9dfaef92cbabc62bef28534fe6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 19/43] fix: a timer made from a moved-from timer does not log

---
 mbo/log/log_timing.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/log/log_timing.h b/mbo/log/log_timing.h
index 22295eb..3445aae 100644
--- a/mbo/log/log_timing.h
+++ b/mbo/log/log_timing.h
@@ -70,7 +70,7 @@ class LogTimingImpl final {
     Once(const Once&) = delete;
     Once& operator=(const Once&) = delete;
 
-    Once(Once&& other) noexcept { other.once_ = false; }
+    Once(Once&& other) noexcept : once_(std::exchange(other.once_, false)) {}
 
     Once& operator=(Once&&) = delete;
 
-- 
2.43.0


From d1b5b68c1d4168e7e0cd7a85612e51fd1a22da00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 20/43] fix: AnyScan iterators compare equal at the same
 element and *it++ yields the old one

operator== compared addresses with !=, so iterators at the same element were
unequal and iterators at different elements equal. The result of it++ shared
its position with it and thus read the following element.
---
 mbo/container/any_scan.h | 44 +++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/mbo/container/any_scan.h b/mbo/container/any_scan.h
index 019a4f0..53f0978 100644
--- a/mbo/container/any_scan.h
+++ b/mbo/container/any_scan.h
@@ -289,6 +289,7 @@ class AnyScanImpl {
     FuncMore more;
     FuncCurr curr;
     FuncNext next;
+    std::function<IterFuncs()> clone;  // Creates an independent iterator at the same position.
   };
 
   using FuncIter = std::function<IterFuncs()>;
@@ -351,6 +352,22 @@ class AnyScanImpl {
     return std::shared_ptr<Iterator>(new Iterator(container.begin()));
   }
 
+  template<typename Data, typename Iterator>
+  static IterFuncs MakeIterFuncs(const Data& data, const std::shared_ptr<Iterator>& pos) {
+    return IterFuncs{
+        .more = [data = data, pos = pos]() -> bool { return *pos != data.container().end(); },
+        .curr = [&it = *pos]() -> AccessType {
+          if constexpr (kAccessByRef) {
+            return *it;
+          } else {
+            return AccessType(*it);
+          }
+        },
+        .next = [&it = *pos] { ++it; },
+        .clone = [data = data, pos = pos] { return MakeIterFuncs(data, std::make_shared<Iterator>(*pos)); },
+    };
+  }
+
   // NOLINTBEGIN(bugprone-forwarding-reference-overload)
 
   // For MakAnyScan / MakeConstScan
@@ -358,15 +375,7 @@ class AnyScanImpl {
   requires kAccessByRef
   explicit AnyScanImpl(const MakeAnyScanData<Container, kScanMode>& data)
       : funcs_{
-            .iter =
-                [data = data] {
-                  auto pos = MakeSharedIterator(data.container());
-                  return IterFuncs{
-                      .more = [data = data, pos = pos]() -> bool { return *pos != data.container().end(); },
-                      .curr = [&it = *pos]() -> AccessType { return *it; },
-                      .next = [&it = *pos] { ++it; },
-                  };
-                },
+            .iter = [data = data] { return MakeIterFuncs(data, MakeSharedIterator(data.container())); },
             .empty = [data = data] { return data.empty(); },
             .size = [data = data] { return data.size(); },
         } {}
@@ -380,15 +389,7 @@ class AnyScanImpl {
   explicit AnyScanImpl(const MakeAnyScanData<Container, kScanMode>& data)
       : funcs_{
             // NOTE: data must be copied here!
-            .iter =
-                [data = data] {
-                  auto pos = MakeSharedIterator(data.container());
-                  return IterFuncs{
-                      .more = [data = data, pos = pos]() -> bool { return *pos != data.container().end(); },
-                      .curr = [&it = *pos]() -> AccessType { return AccessType(*it); },
-                      .next = [&it = *pos] { ++it; },
-                  };
-                },
+            .iter = [data = data] { return MakeIterFuncs(data, MakeSharedIterator(data.container())); },
             .empty = [data = data] { return data.empty(); },
             .size = [data = data] { return data.size(); },
         } {}
@@ -411,6 +412,7 @@ class AnyScanImpl {
               .more = [] { return false; },
               .curr = nullptr,
               .next = [] {},
+              .clone = nullptr,
           } {}
 
     explicit iterator_impl(const AccessFuncs& funcs) : funcs_(funcs.iter()) {}
@@ -451,7 +453,11 @@ class AnyScanImpl {
     }
 
     iterator_impl operator++(int) noexcept {  // NOLINT(cert-dcl21-cpp)
+      // Copies share their position, so the result needs its own in order to stay where it is.
       iterator_impl result = *this;
+      if (funcs_.clone) {
+        result.funcs_ = funcs_.clone();
+      }
       funcs_.next();
       return result;
     }
@@ -470,7 +476,7 @@ class AnyScanImpl {
       if constexpr (kAccessByRef) {
         // Approximate equal address means equal iterator. That is not always correct as a container
         // might have the same element reference twice.
-        return &funcs_.curr() != &other.funcs_.curr();
+        return &funcs_.curr() == &other.funcs_.curr();
       } else {
         // Cannot take address of rvalue temp. Comparing actual values would be incorrect.
         return false;
-- 
2.43.0


From ce61f587e9e493d917b2cf12a10cd846dfe9af99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 21/43] fix: StatusBuilder::SetPrepend puts the streamed text
 in front of the message

It did nothing, so that without a later SetAppend the text followed the
message.
---
 mbo/status/status_builder.cc | 13 ++++++++++---
 mbo/status/status_builder.h  |  1 +
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/mbo/status/status_builder.cc b/mbo/status/status_builder.cc
index 505af1a..b1a527f 100644
--- a/mbo/status/status_builder.cc
+++ b/mbo/status/status_builder.cc
@@ -15,6 +15,7 @@
 
 #include "mbo/status/status_builder.h"
 
+#include <string>
 #include <string_view>
 #include <utility>
 
@@ -25,6 +26,9 @@
 namespace mbo::status {
 
 StatusBuilder& StatusBuilder::SetPrepend() & {
+  if (data_) {
+    data_->prepend = true;
+  }
   return *this;
 }
 
@@ -52,9 +56,12 @@ StatusBuilder::operator absl::Status() const & {
   if (!data_) {
     return absl::OkStatus();
   }
-  absl::Status result(
-      data_->status.code(),
-      data_->appended ? data_->stream.str() : absl::StrCat(data_->status.message(), data_->stream.str()));
+  std::string message = data_->stream.str();
+  if (!data_->appended) {
+    message = data_->prepend ? absl::StrCat(message, data_->status.message())
+                             : absl::StrCat(data_->status.message(), message);
+  }
+  absl::Status result(data_->status.code(), message);
   data_->status.ForEachPayload(
       [&result](std::string_view url, const absl::Cord& payload) { result.SetPayload(url, payload); });
   return result;
diff --git a/mbo/status/status_builder.h b/mbo/status/status_builder.h
index 095df2d..1619d67 100644
--- a/mbo/status/status_builder.h
+++ b/mbo/status/status_builder.h
@@ -127,6 +127,7 @@ class StatusBuilder final {
   struct Data {
     absl::Status status;
     std::stringstream stream;
+    bool prepend = false;
     bool appended = false;
   };
 
-- 
2.43.0


From 818e11e340567c9f80a5549d5bdd594d1146f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 22/43] fix: diff --strip_comments does not read a destroyed
 string

---
 mbo/diff/diff_main.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mbo/diff/diff_main.cc b/mbo/diff/diff_main.cc
index 1514b1c..7d8406d 100644
--- a/mbo/diff/diff_main.cc
+++ b/mbo/diff/diff_main.cc
@@ -227,9 +227,9 @@ constexpr int kExitTrouble = 2;
 
 // Builds the diff options from the command-line flags. Split out of `Diff` so
 // that reading the inputs and reporting the result stay legible next to the
-// flag validation and the two option-building lambdas.
-Diff::Options MakeDiffOptions() {
-  const std::string strip_comments = absl::GetFlag(FLAGS_strip_comments);
+// flag validation and the two option-building lambdas. The options refer to
+// `strip_comments` which must outlive them.
+Diff::Options MakeDiffOptions(std::string_view strip_comments) {
   const std::optional<Diff::Options::Algorithm> algorithm =
       Diff::Options::ParseAlgorithmFlag(absl::GetFlag(FLAGS_algorithm));
   ABSL_QCHECK(algorithm) << "Unknown algorithm";
@@ -302,7 +302,8 @@ int Diff(std::string_view lhs_name, std::string_view rhs_name) {
   if (!rhs.ok()) {
     return kExitTrouble;
   }
-  const Diff::Options diff_options = MakeDiffOptions();
+  const std::string strip_comments = absl::GetFlag(FLAGS_strip_comments);
+  const Diff::Options diff_options = MakeDiffOptions(strip_comments);
   const auto result = Diff::FileDiff(*lhs, *rhs, diff_options);
   if (!result.ok()) {
     ABSL_LOG(ERROR) << "ERROR: " << result.status();
-- 
2.43.0


From c3102b8338815fa471462e60ef574961af60aa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:22 +0000
Subject: [PATCH 23/43] fix: glob prints the paths below a relative root

---
 mbo/file/glob_main.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index 7675706..0a7fa66 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -69,9 +69,8 @@ class Entries {
 
   ~Entries() = default;
 
-  explicit Entries(std::filesystem::path root)
-      : root_(std::move(root)),
-        dotdir_(absl::GetFlag(FLAGS_dotdir)),
+  Entries()
+      : dotdir_(absl::GetFlag(FLAGS_dotdir)),
         dotfile_(absl::GetFlag(FLAGS_dotfile)),
         show_fast_(absl::GetFlag(FLAGS_fast)),
         show_size_(absl::GetFlag(FLAGS_size)),
@@ -181,7 +180,7 @@ class Entries {
     if (show_depth_) {
       std::cout << absl::StreamFormat("%*s ", depth_len_, BigNumber(entry.glob_entry.depth));
     }
-    std::cout << entry.glob_entry.entry.path().lexically_relative(root_).native() << "\n";
+    std::cout << entry.glob_entry.MaybeRelativePath().native() << "\n";
   }
 
   void ComputeFieldLengths() const {
@@ -223,7 +222,6 @@ class Entries {
   }
 
  private:
-  const std::filesystem::path root_;
   const bool dotdir_{true};
   const bool dotfile_{true};
   const bool show_fast_{false};
@@ -315,12 +313,13 @@ int main(int argc, char** argv) {
           ? mbo::file::GlobSplit(root)
           : mbo::file::RootAndPattern{.root = std::string{root}, .pattern = args.at(2)};
   EXIT_IF_ERROR(root_pattern);
-  Entries entries(root_pattern->root);
+  Entries entries;
 
   const auto collect = std::bind_front(&Entries::Add, &entries);
+  const mbo::file::GlobOptions options{.use_rel_path = true};
   const auto result = absl::GetFlag(FLAGS_re2)  // NL
-                          ? mbo::file::GlobRe2(root_pattern, {}, collect)
-                          : mbo::file::Glob(root_pattern, {}, {}, collect);
+                          ? mbo::file::GlobRe2(root_pattern, options, collect)
+                          : mbo::file::Glob(root_pattern, {}, options, collect);
   EXIT_IF_ERROR(result);
   if (absl::GetFlag(FLAGS_entries) && !absl::GetFlag(FLAGS_fast)) {
     entries.PrintAllEntries();
-- 
2.43.0


From 6427eedc9bd75d36cad1e918bbb9156704ae2d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 24/43] fix: glob exits non-zero instead of crashing or losing
 its output

---
 mbo/file/glob_main.cc | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index 0a7fa66..56b2f19 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -19,6 +19,7 @@
 #include <iostream>
 #include <string>
 #include <string_view>
+#include <system_error>
 #include <utility>
 #include <vector>
 
@@ -88,23 +89,31 @@ class Entries {
   Entries(Entries&&) noexcept = default;
   Entries& operator=(Entries&&) = delete;
 
-  mbo::file::GlobEntryAction Add(const mbo::file::GlobEntry& glob_entry) {
+  absl::StatusOr<mbo::file::GlobEntryAction> Add(const mbo::file::GlobEntry& glob_entry) {
+    // A link whose target cannot be examined is still a link and an entry may just have been removed.
+    std::error_code error;
+    const bool is_link = glob_entry.entry.is_symlink(error);
+    const bool is_dir = glob_entry.entry.is_directory(error);
+    const bool is_file = !is_dir && glob_entry.entry.is_regular_file(error);
+    if (error && !is_link && error != std::errc::no_such_file_or_directory) {
+      return absl::CancelledError(error.message());
+    }
     // Filter
-    if (glob_entry.entry.is_directory()) {
+    if (is_dir) {
       if (!dotdir_ && glob_entry.entry.path().filename().string().starts_with('.')) {
         return mbo::file::GlobEntryAction::kDoNotRecurse;
       }
-    } else if (glob_entry.entry.is_regular_file()) {
+    } else if (is_file) {
       if (!dotfile_ && glob_entry.entry.path().filename().string().starts_with('.')) {
         return mbo::file::GlobEntryAction::kContinue;
       }
     }
     // Actual Add
-    if (glob_entry.entry.is_directory()) {
+    if (is_dir) {
       ++dirs_;
-    } else if (glob_entry.entry.is_symlink()) {
+    } else if (is_link) {
       ++links_;
-    } else if (glob_entry.entry.is_regular_file()) {
+    } else if (is_file) {
       ++files_;
       const std::size_t size = glob_entry.FileSize();
       size_ += size;
@@ -151,19 +160,20 @@ class Entries {
   }
 
   static char GetType(const std::filesystem::directory_entry& entry) {
-    if (entry.is_directory()) {
+    std::error_code error;  // If the type cannot be determined, then it is not known.
+    if (entry.is_directory(error)) {
       return 'd';
-    } else if (entry.is_symlink()) {
+    } else if (entry.is_symlink(error)) {
       return 'l';
-    } else if (entry.is_regular_file()) {
+    } else if (entry.is_regular_file(error)) {
       return 'f';
-    } else if (entry.is_block_file()) {
+    } else if (entry.is_block_file(error)) {
       return 'b';
-    } else if (entry.is_character_file()) {
+    } else if (entry.is_character_file(error)) {
       return 'c';
-    } else if (entry.is_fifo()) {
+    } else if (entry.is_fifo(error)) {
       return 'p';
-    } else if (entry.is_socket()) {
+    } else if (entry.is_socket(error)) {
       return 's';
     }
     // NO 'o' for other: entry.is_other()) {
@@ -328,5 +338,10 @@ int main(int argc, char** argv) {
     std::cout << "\n";
     entries.PrintSummary(absl::GetFlag(FLAGS_sum_extensions));
   }
+  std::cout << std::flush;
+  if (!std::cout) {
+    std::cerr << "ERROR: Cannot write to the standard output.\n";
+    return 1;
+  }
   return 0;
 }
-- 
2.43.0


From 8e69d625b6cc00f9ba12f284a14ecff04702b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 25/43] fix: hash_tool exits non-zero when reading or writing
 fails

---
 mbo/hash/hash_tool.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mbo/hash/hash_tool.cc b/mbo/hash/hash_tool.cc
index cb11e38..d579545 100644
--- a/mbo/hash/hash_tool.cc
+++ b/mbo/hash/hash_tool.cc
@@ -23,6 +23,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <cstdio>
 #include <iostream>
 #include <optional>
 #include <span>
@@ -56,6 +57,15 @@ std::optional<HashFn> Lookup(std::string_view algo) {
   return it->second;
 }
 
+// Returns the exit code, which is 0 only if everything was written.
+int Finish() {
+  if (!std::cout.flush()) {
+    std::cerr << "Cannot write to the standard output.\n";
+    return 1;
+  }
+  return 0;
+}
+
 }  // namespace
 
 int main(int argc, char** argv) {
@@ -77,11 +87,16 @@ int main(int argc, char** argv) {
   if (args.size() == 3) {
     // NOLINTNEXTLINE(*-avoid-unchecked-container-access): std::span has no at() before C++26; size == 3 here.
     std::cout << absl::StreamFormat("%016X\n", (*hash_fn)(args[2]));
-    return 0;
+    return Finish();
   }
   std::string line;
   while (std::getline(std::cin, line)) {
     std::cout << absl::StreamFormat("%016X\n", (*hash_fn)(line));
   }
-  return 0;
+  // For `std::cin` a read error looks like its end, only the C stream it is synchronized with tells them apart.
+  if (std::cin.bad() || std::ferror(stdin) != 0) {
+    std::cerr << "Cannot read the standard input.\n";
+    return 1;
+  }
+  return Finish();
 }
-- 
2.43.0


From 9f17479df13bfe6c51a1acb87f8a6f60b4e024a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 26/43] fix: align_markdown_tables never leaves a half written
 document

Rewriting truncated the document before writing it, so a full disk or a
killed run lost it, write errors and undecodable files ended with status 1
("reformatted"), and CRLF line endings were converted. Write a temporary
file and rename it, report every error with status 2, keep line endings.
---
 tools/align_markdown_tables.py | 35 +++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/tools/align_markdown_tables.py b/tools/align_markdown_tables.py
index 19fe6e7..31b4f1c 100755
--- a/tools/align_markdown_tables.py
+++ b/tools/align_markdown_tables.py
@@ -34,8 +34,11 @@ Asian wide / combining characters are not visually accounted for.
 """
 
 import argparse
+import os
 import re
+import shutil
 import sys
+import tempfile
 
 _DELIM_CELL = re.compile(r"^:?-+:?$")
 _FENCE = re.compile(r"^(\s*)(`{3,}|~{3,})")
@@ -139,7 +142,8 @@ def _format_table(rows):
             body = " | ".join(render_delim(c) for c in range(ncols))
         else:
             body = " | ".join(render_cell(cells[c], c) for c in range(ncols))
-        out.append(f"{indent}| {body} |".rstrip())
+        eol = "\r" if rows[idx].endswith("\r") else ""
+        out.append(f"{indent}| {body} |".rstrip() + eol)
     return out
 
 
@@ -180,6 +184,20 @@ def align_text(text):
     return "\n".join(out)
 
 
+def _replace_file(path, text):
+    """Replaces the content of `path` with `text`: all of it or, on any error, nothing."""
+    path = os.path.realpath(path, strict=True)
+    handle, temp = tempfile.mkstemp(dir=os.path.dirname(path), prefix=".align_markdown_tables.")
+    try:
+        with open(handle, "w", encoding="utf-8", newline="") as stream:
+            stream.write(text)
+        shutil.copymode(path, temp)
+        os.replace(temp, path)
+    except BaseException:
+        os.unlink(temp)
+        raise
+
+
 def main(argv):
     parser = argparse.ArgumentParser(description="Align Markdown table columns.")
     parser.add_argument("--check", action="store_true", help="do not write; only report files that would change")
@@ -189,17 +207,16 @@ def main(argv):
     changed = []
     for path in args.files:
         try:
-            with open(path, "r", encoding="utf-8") as handle:
+            with open(path, "r", encoding="utf-8", newline="") as handle:
                 original = handle.read()
-        except OSError as err:
+            aligned = align_text(original)
+            if aligned != original:
+                changed.append(path)
+                if not args.check:
+                    _replace_file(path, aligned)
+        except (OSError, UnicodeError) as err:
             print(f"align_markdown_tables: {path}: {err}", file=sys.stderr)
             return 2
-        aligned = align_text(original)
-        if aligned != original:
-            changed.append(path)
-            if not args.check:
-                with open(path, "w", encoding="utf-8") as handle:
-                    handle.write(aligned)
     for path in changed:
         verb = "would reformat" if args.check else "reformatted"
         print(f"align_markdown_tables: {verb} {path}", file=sys.stderr)
-- 
2.43.0


From ab316363f3ae2c2dd672598e89ba005b18f9f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 27/43] fix: BUILD lints fail for an unreadable directory
 instead of skipping it

---
 tools/build_rules.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/tools/build_rules.py b/tools/build_rules.py
index 5671e6b..b15dd52 100755
--- a/tools/build_rules.py
+++ b/tools/build_rules.py
@@ -33,6 +33,7 @@ finding as "prove it or allowlist it", never as ground truth about the build gra
 
 from __future__ import annotations
 
+import os
 import re
 from dataclasses import dataclass, field
 from pathlib import Path
@@ -110,9 +111,20 @@ def is_skipped(relative: Path) -> bool:
 
 
 def find_build_files(root: Path) -> list[Path]:
-    """Every BUILD.bazel / BUILD file under `root`, minus generated and vendored trees."""
-    found = [p for p in root.rglob("BUILD.bazel") if not is_skipped(p.relative_to(root))]
-    found += [p for p in root.rglob("BUILD") if not is_skipped(p.relative_to(root))]
+    """Every BUILD.bazel / BUILD file under `root`, minus generated and vendored trees.
+
+    Raises OSError for an unreadable directory: `Path.rglob` would skip it silently and
+    the rules below it would pass unchecked.
+    """
+
+    def fail(error: OSError) -> None:
+        raise error
+
+    found: list[Path] = []
+    for directory, subdirs, files in os.walk(root, onerror=fail):
+        base = Path(directory)
+        subdirs[:] = [name for name in subdirs if not is_skipped((base / name).relative_to(root))]
+        found += [base / name for name in ("BUILD.bazel", "BUILD") if name in files]
     return sorted(found)
 
 
-- 
2.43.0


From 81631c9ab3ffae60385846c1daa714b8b68b342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 28/43] fix: coverage_index reports errors instead of dropping
 reports

An unreadable directory vanished from the overview, and an error in 'newer'
was taken for the answer 'older' so that the newest report was ignored.
---
 .github/workflows/coverage_pages.yml | 10 ++++++++--
 tools/coverage_index.py              | 26 ++++++++++++++++++++------
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/.github/workflows/coverage_pages.yml b/.github/workflows/coverage_pages.yml
index 914398f..cc1861d 100644
--- a/.github/workflows/coverage_pages.yml
+++ b/.github/workflows/coverage_pages.yml
@@ -113,8 +113,14 @@ jobs:
             git -C site mv "coverage/pr${number}" "coverage/pr/${number}"
           done
           current="site/coverage/${target}/coverage-meta.json"
-          if [[ -f "${current}" ]] && ! python3 source/tools/coverage_index.py newer \
-            report/coverage-html/coverage-meta.json "${current}"; then
+          newer=0
+          if [[ -f "${current}" ]]; then
+            python3 source/tools/coverage_index.py newer \
+              report/coverage-html/coverage-meta.json "${current}" || newer="${?}"
+          fi
+          if [[ "${newer}" -gt 1 ]]; then
+            exit "${newer}"
+          elif [[ "${newer}" -eq 1 ]]; then
             echo "Ignoring older ${target} report from run ${SOURCE_RUN_ID}"
           else
             mkdir -p "site/coverage/${target}"
diff --git a/tools/coverage_index.py b/tools/coverage_index.py
index 605e93b..adf0907 100755
--- a/tools/coverage_index.py
+++ b/tools/coverage_index.py
@@ -11,6 +11,7 @@ import datetime
 import html
 import json
 import re
+import sys
 from pathlib import Path
 
 _METRICS = ("lines", "functions", "branches")
@@ -177,11 +178,19 @@ def _short_row(metadata: dict) -> str:
     return "        <tr>" + "".join(f"<td>{value}</td>" for value in (*details, *values)) + "</tr>"
 
 
+def _retained_metadata(root: Path) -> list[Path]:
+    """Returns all retained metadata below root; raises where Path.glob would skip an unreadable directory."""
+    reports = [root / "main"]
+    for group in (root / "tag", root / "pr"):
+        if group.is_dir():
+            reports.extend(sorted(group.iterdir()))
+    sources = [report / "coverage-meta.json" for report in reports]
+    return [source for source in sources if source.is_file()]
+
+
 def render_site(root: Path) -> str:
     """Returns the overview for all retained reports below root."""
-    sources = list((root / "main").glob("coverage-meta.json"))
-    sources.extend((root / "tag").glob("*/coverage-meta.json"))
-    sources.extend((root / "pr").glob("*/coverage-meta.json"))
+    sources = _retained_metadata(root)
     metadata = latest_metadata(
         [json.loads(source.read_text(encoding="utf-8")) for source in sources]
     )
@@ -260,9 +269,14 @@ def main() -> int:
         )
         args.output.write_text(json.dumps(value, indent=2) + "\n", encoding="utf-8")
     else:
-        candidate = json.loads(args.candidate.read_text(encoding="utf-8"))
-        current = json.loads(args.current.read_text(encoding="utf-8"))
-        return 0 if is_newer(candidate, current) else 1
+        # Status 1 is the answer "older", so an error must not end with it.
+        try:
+            candidate = json.loads(args.candidate.read_text(encoding="utf-8"))
+            current = json.loads(args.current.read_text(encoding="utf-8"))
+            return 0 if is_newer(candidate, current) else 1
+        except (OSError, ValueError, LookupError, TypeError) as error:
+            print(f"coverage_index: cannot compare reports: {error!r}", file=sys.stderr)
+            return 2
     return 0
 
 
-- 
2.43.0


From 2861ad777d468c7f98da397412949e29ca8992f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 29/43] fix: check_test_matchers.sh does not pass when grep
 fails

---
 tools/check_test_matchers.sh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/check_test_matchers.sh b/tools/check_test_matchers.sh
index 5d9fec0..efc672b 100755
--- a/tools/check_test_matchers.sh
+++ b/tools/check_test_matchers.sh
@@ -8,13 +8,18 @@ readonly COMPARISON='\b(ASSERT|EXPECT)_(EQ|NE|LT|LE|GT|GE|STREQ|STRNE|STRCASEEQ|
 readonly QUALIFIED='(::mbo::)?testing::[A-Z][A-Za-z0-9_]*\('
 readonly QUALIFIED_UTILITY='testing::(ExplainMatchResult|MakePolymorphicMatcher|PrintToString|Return|RunfilesDirOrDie|TempDir|Test|TestWithParam|Values)\('
 
+# No match is an answer; any other failure must not pass as one.
+function search() {
+  grep "${@}" || [[ ${?} == 1 ]]
+}
+
 status=0
 for file in "$@"; do
   source="$(sed 's|//.*||' "${file}")"
-  comparisons="$(grep -nE "${COMPARISON}" <<<"${source}" || true)"
+  comparisons="$(search -nE "${COMPARISON}" <<<"${source}")"
   qualified=""
   if [[ ${file} != mbo/testing/*.h ]]; then
-    qualified="$(grep -nE "${QUALIFIED}" <<<"${source}" | grep -vE "${QUALIFIED_UTILITY}" || true)"
+    qualified="$(search -nE "${QUALIFIED}" <<<"${source}" | search -vE "${QUALIFIED_UTILITY}")"
   fi
   if [[ -n ${comparisons} ]]; then
     echo "${file}: use EXPECT_THAT / ASSERT_THAT and a matcher:" >&2
-- 
2.43.0


From e692460d8f80fcb28052a233cdb74566c5f2aba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 30/43] fix: trigger_release.sh publishes only its own tag

---
 tools/trigger_release.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/trigger_release.sh b/tools/trigger_release.sh
index 6509f0d..9978be8 100755
--- a/tools/trigger_release.sh
+++ b/tools/trigger_release.sh
@@ -83,7 +83,8 @@ patch -p1 --dry-run -f -i .github/workflows/bazelmod.patch >/dev/null 2>&1 \
 git tag -s -a "${VERSION}" \
   -m "New release tag version: '${VERSION}'." \
   -m "$(awk '/^#/{if(NR>1)exit}/^[^#]/{print}' <CHANGELOG.md)"
-git push origin --tags
+# Only this tag: any other numeric tag that exists locally would trigger a release, too.
+git push origin "refs/tags/${VERSION}"
 
 echo "Next version: ${NEXT_VERSION}"
 
-- 
2.43.0


From 2de54dc67b4257b8ad834032bf8882e5f3df72c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 31/43] fix: trigger_release.sh looks for exactly its own tag,
 also at origin

---
 tools/trigger_release.sh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/trigger_release.sh b/tools/trigger_release.sh
index 9978be8..d1ffe45 100755
--- a/tools/trigger_release.sh
+++ b/tools/trigger_release.sh
@@ -71,7 +71,12 @@ if [[ -z "${NEXT_VERSION}" ]]; then
   die "Could not determine next version from input (${VERSION})."
 fi
 
-grep "${VERSION}" < <(git tag -l) && die "Version tag is already in use."
+# Exactly this tag (0.1.2 must not be refused because of 0.1.20), here or at origin.
+LOCAL_TAG="$(git tag -l "${VERSION}")"
+ORIGIN_TAG="$(git ls-remote --tags origin "refs/tags/${VERSION}")"
+if [[ -n "${LOCAL_TAG}${ORIGIN_TAG}" ]]; then
+  die "Version tag is already in use."
+fi
 
 # Pre-flight: release_prep.sh applies .github/workflows/bazelmod.patch to the
 # worktree before archiving (it shapes the released MODULE.bazel/mope.bzl). If it
-- 
2.43.0


From 61c6f8f0f339b0b68c9ea146b1dee0fac4db8efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 32/43] fix: trigger_release.sh does not tag when git or awk
 fails

---
 tools/trigger_release.sh | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/tools/trigger_release.sh b/tools/trigger_release.sh
index d1ffe45..9c81ab2 100755
--- a/tools/trigger_release.sh
+++ b/tools/trigger_release.sh
@@ -33,18 +33,24 @@ BRANCH="$(git rev-parse --abbrev-ref HEAD)"
 if [[ "${BRANCH}" != "main" ]]; then
   die "Must be run from the 'main' branch (currently on '${BRANCH}')."
 fi
-if [[ "$(git rev-parse HEAD)" != "$(git rev-parse origin/main)" ]]; then
+# Assigned first: unlike in a condition, a failing git ends the script here.
+HEAD_COMMIT="$(git rev-parse HEAD)"
+MAIN_COMMIT="$(git rev-parse origin/main)"
+if [[ "${HEAD_COMMIT}" != "${MAIN_COMMIT}" ]]; then
   die "HEAD ($(git rev-parse --short HEAD)) is not at origin/main ($(git rev-parse --short origin/main)); pull first."
 fi
 
-if [[ -n "$(git status --porcelain)" ]]; then
+STATUS="$(git status --porcelain)"
+MAIN_DIFF="$(git diff origin/main --numstat)"
+CACHED_DIFF="$(git diff origin/main --cached --numstat)"
+if [[ -n "${STATUS}" ]]; then
   # Non empty output means non clean branch.
   die "Must be run from clean 'main' branch."
 fi
-if [[ -n "$(git diff origin/main --numstat)" ]]; then
+if [[ -n "${MAIN_DIFF}" ]]; then
   die "Must be run from clean 'main' branch."
 fi
-if [[ -n "$(git diff origin/main --cached --numstat)" ]]; then
+if [[ -n "${CACHED_DIFF}" ]]; then
   die "Must be run from clean 'main' branch."
 fi
 
@@ -85,9 +91,10 @@ fi
 patch -p1 --dry-run -f -i .github/workflows/bazelmod.patch >/dev/null 2>&1 \
   || die "Patch .github/workflows/bazelmod.patch no longer applies; regenerate it before releasing."
 
+NOTES="$(awk '/^#/{if(NR>1)exit}/^[^#]/{print}' <CHANGELOG.md)"
 git tag -s -a "${VERSION}" \
   -m "New release tag version: '${VERSION}'." \
-  -m "$(awk '/^#/{if(NR>1)exit}/^[^#]/{print}' <CHANGELOG.md)"
+  -m "${NOTES}"
 # Only this tag: any other numeric tag that exists locally would trigger a release, too.
 git push origin "refs/tags/${VERSION}"
 
-- 
2.43.0


From d36dbe893f3ab09ca377feae4b29ad93ed69076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 33/43] fix: check_version.sh does not pass when no version can
 be read

---
 .pre-commit/check_version.sh | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/.pre-commit/check_version.sh b/.pre-commit/check_version.sh
index b7ece90..ec54a53 100755
--- a/.pre-commit/check_version.sh
+++ b/.pre-commit/check_version.sh
@@ -15,13 +15,19 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+set -euo pipefail
+
 function die() {
   echo "ERROR: ${*}" 1>&2
   exit 1
 }
 
-BAZELMOD_VERSION="$(sed -rne 's,.*version = "([0-9]+([.][0-9]+)+.*)".*,\1,p' <MODULE.bazel | head -n1)"
-CHANGELOG_VERSION="$(sed -rne 's,^# ([0-9]+([.][0-9]+)+.*)$,\1,p' <CHANGELOG.md | head -n1)"
+BAZELMOD_VERSION="$(sed -rne 's,.*version = "([0-9]+([.][0-9]+)+.*)".*,\1,p' <MODULE.bazel | sed -n 1p)"
+CHANGELOG_VERSION="$(sed -rne 's,^# ([0-9]+([.][0-9]+)+.*)$,\1,p' <CHANGELOG.md | sed -n 1p)"
+
+# Two missing versions do not agree.
+[ -n "${BAZELMOD_VERSION}" ] || die "No version in MODULE.bazel."
+[ -n "${CHANGELOG_VERSION}" ] || die "No version in CHANGELOG.md."
 
 if [ "${BAZELMOD_VERSION}" != "${CHANGELOG_VERSION}" ]; then
   die "MODULE.bazel (${BAZELMOD_VERSION}) != CHANGELOG.md (${CHANGELOG_VERSION})."
-- 
2.43.0


From d643e2cacb965cbee478fe1d2e93b3cd0ab906f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 34/43] fix: Json keeps integers assigned from lvalues as
 integers

JsonUseSignedInt and JsonUseUnsignedInt looked at reference types, for which
std::is_signed / std::integral are false, so lvalues were stored as Float.
---
 mbo/json/json.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 00786ad..c1ff1df 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -57,11 +57,12 @@ using Object = absl::flat_hash_map<std::string, std::unique_ptr<Json>>;
 using Variant = std::variant<std::nullopt_t, Array, bool, Float, SignedInt, Object, std::string, UnsignedInt>;
 
 template<typename Value>
-concept JsonUseSignedInt = std::is_signed_v<Value> && std::integral<Value> && std::convertible_to<Value, SignedInt>;
+concept JsonUseSignedInt = std::is_signed_v<std::remove_cvref_t<Value>> && std::integral<std::remove_cvref_t<Value>>
+                           && std::convertible_to<Value, SignedInt>;
 
 template<typename Value>
-concept JsonUseUnsignedInt =
-    std::is_unsigned_v<Value> && std::integral<Value> && std::convertible_to<Value, UnsignedInt>;
+concept JsonUseUnsignedInt = std::is_unsigned_v<std::remove_cvref_t<Value>> && std::integral<std::remove_cvref_t<Value>>
+                             && std::convertible_to<Value, UnsignedInt>;
 
 template<typename Value>
 concept JsonUseFloat = !std::same_as<std::remove_cvref_t<Value>, bool>
-- 
2.43.0


From 561edff731e7eef8c9308f4a0015ccb884c5846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 35/43] fix: assigning a non-const Json lvalue that is not an
 Object

CopyFrom took any Json lvalue for an Object, so other kinds failed with
bad_variant_access and an Object assigned to itself was emptied.
---
 mbo/json/json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index c1ff1df..6debb1b 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -760,7 +760,7 @@ class Json {
     } else if constexpr (JsonUseArray<Value>) {
       data_.emplace<Array>(std::make_unique<Array::element_type>(*value));
     } else if constexpr (JsonUseObject<Value>) {
-      CopyObject(value);
+      *this = std::as_const(value);  // Any kind of `Json`, so not necessarily an `Object`.
     } else {
       MBO_CONFIG_REQUIRE(false, "Bad type: ") << log::DemangleV(value);
     }
-- 
2.43.0


From a0528b16cc54194c50b8192f45ef37f4bac487ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:21 +0000
Subject: [PATCH 36/43] fix: a moved-from Json is Null and a Json can take over
 its own element

The defaulted move left an Array without its vector, which every later access
dereferenced, and destroyed an element that was moved into its own owner.
---
 mbo/json/json.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 6debb1b..dacdbf9 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -317,8 +317,14 @@ class Json {
     return *this;
   }
 
-  Json(Json&&) noexcept = default;
-  Json& operator=(Json&&) noexcept = default;
+  // The moved from value becomes Null. Leaving its variant alone would keep an `Array` without elements vector.
+  Json(Json&& other) noexcept : data_{std::exchange(other.data_, Variant{std::nullopt})} {}
+
+  // Takes `other` before destroying the current data, since `other` may be part of it.
+  Json& operator=(Json&& other) noexcept {
+    data_ = std::exchange(other.data_, Variant{std::nullopt});
+    return *this;
+  }
 
   explicit Json(std::nullopt_t /*value*/) noexcept : data_{std::nullopt} {}
 
-- 
2.43.0


From 594b90d92f680834db70b764622abb51183f02b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:24 +0000
Subject: [PATCH 37/43] fix: compare Json Objects in order of their property
 names

The comparison walked both hash maps in iteration order, so that Objects with
the same properties could differ depending on hash seed and edit history.
---
 mbo/json/json.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index dacdbf9..6aa4d65 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -18,6 +18,7 @@
 #ifndef MBO_JSON_JSON_H_
 #define MBO_JSON_JSON_H_
 
+#include <algorithm>
 #include <compare>
 #include <concepts>  // IWYU pragma: keep
 #include <cstdint>
@@ -30,6 +31,7 @@
 #include <type_traits>
 #include <utility>
 #include <variant>
+#include <vector>
 
 #include "absl/container/flat_hash_map.h"
 #include "mbo/config/require.h"
@@ -828,13 +830,26 @@ constexpr auto kJsonComparator = mbo::types::Overloaded{
     },
     [](const Json::Array& lhs, const Json::Array& rhs) { return types::WeakToStrong(*lhs <=> *rhs); },
     [](const Json::Object& lhs, const Json::Object& rhs) -> std::strong_ordering {
-      auto lhs_it = lhs.begin();
-      auto rhs_it = rhs.begin();
-      while (lhs_it != lhs.end() && rhs_it != rhs.end()) {
-        if (auto comp = types::WeakToStrong(lhs_it->first <=> rhs_it->first); comp != std::strong_ordering::equal) {
+      // Compare in order of the property names, since the iteration order depends on hash seed and edit history.
+      const auto ordered = [](const Json::Object& object) {
+        std::vector<const Json::Object::value_type*> properties;
+        properties.reserve(object.size());
+        for (const Json::Object::value_type& property : object) {
+          properties.push_back(&property);
+        }
+        std::ranges::sort(properties, {}, [](const auto* property) -> const std::string& { return property->first; });
+        return properties;
+      };
+      const auto lhs_properties = ordered(lhs);
+      const auto rhs_properties = ordered(rhs);
+      auto lhs_it = lhs_properties.begin();
+      auto rhs_it = rhs_properties.begin();
+      while (lhs_it != lhs_properties.end() && rhs_it != rhs_properties.end()) {
+        if (auto comp = types::WeakToStrong((*lhs_it)->first <=> (*rhs_it)->first);
+            comp != std::strong_ordering::equal) {
           return comp;
         }
-        if (auto comp = lhs_it->second <=> rhs_it->second; comp != std::strong_ordering::equal) {
+        if (auto comp = (*lhs_it)->second <=> (*rhs_it)->second; comp != std::strong_ordering::equal) {
           return comp;
         }
         ++lhs_it;
-- 
2.43.0


From 3023b3ed86d08e37747e3a14e423bc8e1b93e74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:27 +0000
Subject: [PATCH 38/43] fix: Json::values() does not write to standard output

---
 mbo/json/json.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 6aa4d65..ee8c6de 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -654,12 +654,10 @@ class Json {
     if (IsArray()) {
       auto& array = std::get<Array>(data_);
       MBO_CONFIG_REQUIRE_DEBUG(array != nullptr, "May not be nulltr.");
-      std::cout << "Array Size: " << array->size() << "\n" << std::flush;
       return {*this, array->begin(), array->end()};
     }
     MBO_CONFIG_REQUIRE(IsObject(), "Is neither Array nor Object.");
     auto& object = std::get<Object>(data_);
-    std::cout << "Object Size: " << object.size() << "\n" << std::flush;
     return {*this, object.begin(), object.end()};
   }
 
-- 
2.43.0


From 8d206888b5f2b3377a69f7d548a7333658c49a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:30 +0000
Subject: [PATCH 39/43] fix: Json's const_value_iterator can be made from
 value_iterator

The two iterators hold different variants, so the converting constructors
did not compile. The assignment operators already do the conversion.
---
 mbo/json/json.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index ee8c6de..0d32d61 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -146,7 +146,9 @@ class Json {
 
     value_iterator_t(const mutable_iterator& other) noexcept
     requires std::same_as<value_iterator_t, const_iterator>
-        : it_(other.it_) {}
+    {
+      *this = other;
+    }
 
     value_iterator_t& operator=(const mutable_iterator& other) noexcept
     requires std::same_as<value_iterator_t, const_iterator>
@@ -157,7 +159,9 @@ class Json {
 
     value_iterator_t(mutable_iterator&& other) noexcept
     requires std::same_as<value_iterator_t, const_iterator>
-        : it_(other.it_) {}
+    {
+      *this = std::move(other);
+    }
 
     value_iterator_t& operator=(mutable_iterator&& other) noexcept
     requires std::same_as<value_iterator_t, const_iterator>
-- 
2.43.0


From 97a7937db4e0a898e6141e6b4d036d24ec745701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:23 +0000
Subject: [PATCH 40/43] fix: glob does not take an entry it cannot examine for
 something else

A failure to ask for one type was lost when asking for the next succeeded, so
that e.g. a directory was counted as Other and the program still succeeded.
---
 mbo/file/glob_main.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index 56b2f19..e9942b0 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -93,8 +93,8 @@ class Entries {
     // A link whose target cannot be examined is still a link and an entry may just have been removed.
     std::error_code error;
     const bool is_link = glob_entry.entry.is_symlink(error);
-    const bool is_dir = glob_entry.entry.is_directory(error);
-    const bool is_file = !is_dir && glob_entry.entry.is_regular_file(error);
+    const bool is_dir = !error && glob_entry.entry.is_directory(error);
+    const bool is_file = !error && !is_dir && glob_entry.entry.is_regular_file(error);
     if (error && !is_link && error != std::errc::no_such_file_or_directory) {
       return absl::CancelledError(error.message());
     }
-- 
2.43.0


From d220f6abd23c8ad7486fffdca9c49edf2803bb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:57 +0000
Subject: [PATCH 41/43] fix: sweeping caches of closed pull requests spares
 those of main

A pull request from a fork may have the head branch 'main'. Within four hours to
14 days after it was closed, the sweep deleted every cache of our own main.
---
 .github/workflows/cache_cleanup.yml | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/.github/workflows/cache_cleanup.yml b/.github/workflows/cache_cleanup.yml
index ef81af0..e957b61 100644
--- a/.github/workflows/cache_cleanup.yml
+++ b/.github/workflows/cache_cleanup.yml
@@ -69,8 +69,9 @@ jobs:
           set -euo pipefail
           closedBeforeDate="$(date -Iminutes --date=-4hours)"
           closedAfterDate="$(date -Iminutes --date=-14days)"
+          # A fork's pull request may come from its `main`: the caches of our own `main` are not old ones.
           echo "Fetching list of branch names for PRs closed before: ${closedBeforeDate}."
-          if ! closedPrList=$(gh pr list -s closed --json headRefName,closedAt --jq "map(select(.closedAt > \"${closedAfterDate}\" and .closedAt < \"${closedBeforeDate}\"))|.[].headRefName" 2>&1); then
+          if ! closedPrList=$(gh pr list -s closed --json headRefName,closedAt --jq "map(select(.headRefName != \"main\" and .closedAt > \"${closedAfterDate}\" and .closedAt < \"${closedBeforeDate}\"))|.[].headRefName" 2>&1); then
             echo "::warning title=Cache cleanup skipped::Unable to list closed pull requests: ${closedPrList}"
             exit 0
           fi
-- 
2.43.0


From edd68453375f0ebba886ea252175afb6f6f37e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:57 +0000
Subject: [PATCH 42/43] fix: publishing coverage replaces pages that only
 differ in content

rsync's quick check takes files of equal size and modification second for equal,
so a page downloaded in the second the site was checked out was not replaced.
---
 .github/workflows/coverage_pages.yml | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/.github/workflows/coverage_pages.yml b/.github/workflows/coverage_pages.yml
index cc1861d..7877091 100644
--- a/.github/workflows/coverage_pages.yml
+++ b/.github/workflows/coverage_pages.yml
@@ -124,7 +124,8 @@ jobs:
             echo "Ignoring older ${target} report from run ${SOURCE_RUN_ID}"
           else
             mkdir -p "site/coverage/${target}"
-            rsync --archive --delete report/coverage-html/ "site/coverage/${target}/"
+            # Checkout and download may happen in the same second: size and time do not tell files apart.
+            rsync --archive --checksum --delete report/coverage-html/ "site/coverage/${target}/"
           fi
           while IFS= read -r -d '' summary; do
             report_dir="${summary%/coverage-summary.json}"
-- 
2.43.0


From 9d3cf49a95e1e680a69ba0b668ee50b29b07096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:57 +0000
Subject: [PATCH 43/43] fix: publishing coverage fails when it cannot list the
 retained reports

The exit status of find in a process substitution was lost: legacy reports then
got no metadata and vanished from the overview with exit status 0.
---
 .github/workflows/coverage_pages.yml | 1 +
 1 file changed, 1 insertion(+)

diff --git a/.github/workflows/coverage_pages.yml b/.github/workflows/coverage_pages.yml
index 7877091..719a160 100644
--- a/.github/workflows/coverage_pages.yml
+++ b/.github/workflows/coverage_pages.yml
@@ -144,6 +144,7 @@ jobs:
               --run-id 0 \
               --started-at "1970-01-01T00:00:00Z"
           done < <(find site/coverage -name coverage-summary.json -print0)
+          wait "${!}" # Reports that were not found must not vanish from the overview.
           python3 source/tools/coverage_index.py site site/coverage site/coverage/index.html
           git -C site config user.name 'github-actions[bot]'
           git -C site config user.email '41898282+github-actions[bot]@users.noreply.github.com'
-- 
2.43.0

