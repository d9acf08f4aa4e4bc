From bfb010bfdbc58f366fdd9e43a4ac8068a829a3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 01/49] fix: utimens stored uninitialized memory as the change
 time (and as the current time)

With store_time the local variable that stands for the current time was never
assigned.
---
 sources/files.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/files.cpp b/sources/files.cpp
index ff60aa2..211070a 100644
--- a/sources/files.cpp
+++ b/sources/files.cpp
@@ -337,6 +337,7 @@ void FileBase::utimens(const fuse_timespec* ts)
     if (m_store_time)
     {
         fuse_timespec current_time;
+        OSService::get_current_time(current_time);
 
         if (ts)
         {
-- 
2.43.0


From 882b70418de1dc139a53252abc83cc68619e2630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 02/49] fix: rmdir of a non-empty directory removed its entry
 before failing

In the full format the entry was taken out of the parent before the emptiness
check, so rmdir returned ENOTEMPTY and the whole subtree was lost.
---
 sources/full_format.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 9b06aa4..dcae933 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -231,17 +231,25 @@ int FuseHighLevelOps::vrmdir(const char* path, const fuse_context* ctx)
 
     {
         FileLockGuard lg(*dirholder);
-        if (!dirholder->cast_as<Directory>()->remove_entry(last_component, id, type))
+        if (!dirholder->cast_as<Directory>()->get_entry(last_component, id, type))
         {
             return -ENOENT;
         }
     }
 
     auto fp = ft_->open_as(id, type);
-    FileLockGuard lg(*fp);
+    DoubleFileLockGuard lg(*dirholder, *fp);
+    // The entry must go only after the directory is known to be empty.
     fp->cast_as<Directory>()->iterate_over_entries(
         [](const std::string& name, const id_type& id, int type) -> bool
         { throwVFSException(ENOTEMPTY); });
+    id_type current_id;
+    if (!dirholder->cast_as<Directory>()->get_entry(last_component, current_id, type)
+        || current_id != id)
+    {
+        return -ENOENT;    // Removed or replaced by another thread in between.
+    }
+    dirholder->cast_as<Directory>()->remove_entry(last_component, id, type);
     fp->unlink();
     return 0;
 };
-- 
2.43.0


From 11a7e06464066723833a3e1824b1577f3756ec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 03/49] fix: rename in the full format lost data when it should
 have been refused

Renaming onto a non-empty directory unlinked that directory with everything
below it, and renaming to a name that is too long removed the old entry before
failing. Check first, then modify.
---
 sources/full_format.cpp | 53 ++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index dcae933..538c01f 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -336,33 +336,52 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
     auto [base_from, last_from] = open_base(from);
     auto [base_to, last_to] = open_base(to);
 
+    if (last_to.size() > Directory::MAX_FILENAME_LENGTH)
+    {
+        return -ENAMETOOLONG;
+    }
+
     id_type from_id, to_id;
     int from_type, to_type;
-    bool has_to_item = false;
 
+    // Nothing is removed before it is certain that the rename can go through.
+    DoubleFileLockGuard lg(*base_from, *base_to);
+    auto dir_from = base_from->cast_as<Directory>();
+    auto dir_to = base_to->cast_as<Directory>();
+
+    auto stored_from = dir_from->get_entry(last_from, from_id, from_type);
+    if (!stored_from)
     {
-        DoubleFileLockGuard lg(*base_from, *base_to);
+        return -ENOENT;
+    }
+    std::string stored_name(*stored_from);
+    bool has_to_item = dir_to->get_entry(last_to, to_id, to_type).has_value();
 
-        if (!base_from->cast_as<Directory>()->remove_entry(last_from, from_id, from_type))
-        {
-            return -ENOENT;
-        }
-        has_to_item = base_to->cast_as<Directory>()->remove_entry(last_to, to_id, to_type);
-        if (has_to_item && from_id == to_id)
+    if (has_to_item && from_id != to_id)
+    {
+        auto replaced = ft_->open_as(to_id, to_type);
+        SpinFileLockGuard replaced_lg(*replaced);
+        if (to_type == Directory::class_type())
         {
-            // Cannot rename a hardlink onto itself
-            base_from->cast_as<Directory>()->add_entry(last_from, from_id, from_type);
-            base_to->cast_as<Directory>()->add_entry(last_to, to_id, to_type);
-            return 0;
+            replaced->cast_as<Directory>()->iterate_over_entries(
+                [](const std::string& name, const id_type& id, int type) -> bool
+                { throwVFSException(ENOTEMPTY); });
         }
-        base_to->cast_as<Directory>()->add_entry(last_to, from_id, from_type);
+        dir_from->remove_entry(last_from, from_id, from_type);
+        dir_to->remove_entry(last_to, to_id, to_type);
+        dir_to->add_entry(last_to, from_id, from_type);
+        replaced->unlink();
+        return 0;
     }
-    if (has_to_item)
+
+    dir_from->remove_entry(last_from, from_id, from_type);
+    if (has_to_item && dir_to->get_entry(last_to, to_id, to_type))
     {
-        auto holder = ft_->open_as(to_id, to_type);
-        FileLockGuard lg(*holder);
-        holder->unlink();
+        // Cannot rename a hardlink onto itself
+        dir_from->add_entry(stored_name, from_id, from_type);
+        return 0;
     }
+    dir_to->add_entry(last_to, from_id, from_type);
     return 0;
 };
 int FuseHighLevelOps::vfsync(const char* path,
-- 
2.43.0


From 889f838e01123f4208645c580b2f0a97c4261bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 04/49] fix: link followed a symbolic link instead of linking
 it

The kernel has already resolved what needs resolving; following the last
component gave the new name to the target, or failed when it dangles.
---
 sources/full_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 538c01f..f49c7b8 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -295,7 +295,7 @@ int FuseHighLevelOps::vsymlink(const char* to, const char* from, const fuse_cont
 };
 int FuseHighLevelOps::vlink(const char* src, const char* dest, const fuse_context* ctx)
 {
-    auto opened = open_all(src, true);
+    auto opened = open_all(src);
     if (!opened)
     {
         return -ENOENT;
-- 
2.43.0


From 3bd0c75c56f23395af9a70bf4e4a466d3dab2685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 05/49] fix: opening a lite file with O_TRUNC destroyed the
 header that other handles use

---
 sources/lite_format.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 12ba4f0..fce7f29 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1175,7 +1175,12 @@ std::unique_ptr<File> FuseHighLevelOps::open(std::string_view path, int flags, u
         path,
         (flags & O_CREAT) ? LongNameComponentAction::kCreate : LongNameComponentAction::kIgnore,
         [&](std::string&& enc_path)
-        { fp = std::make_unique<File>(root_->open_file_stream(enc_path, flags, mode), *opener_); });
+        {
+            // The underlying file must never be truncated to nothing, because its header holds the
+            // session key which other open handles keep using.
+            fp = std::make_unique<File>(
+                root_->open_file_stream(enc_path, flags & ~O_TRUNC, mode), *opener_);
+        });
 
     if (flags & O_TRUNC)
     {
-- 
2.43.0


From 4365887805dc5a8929f49a72835990099744ac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 06/49] fix: getxattr in the lite format failed unless the
 buffer had exactly the size of the value

---
 sources/lite_format.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index fce7f29..7e025f5 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1113,9 +1113,10 @@ int FuseHighLevelOps::vgetxattr(const char* path,
     {
         return static_cast<int>(rc);
     }
-    xattr_->decrypt(
-        underlying_data.data(), underlying_data.size(), reinterpret_cast<byte*>(value), size);
-    return static_cast<int>(xattr_->infer_decrypted_size(rc));
+    auto true_size = xattr_->infer_decrypted_size(rc);
+    // Only the first `rc` bytes are filled in when the buffer is larger than the value.
+    xattr_->decrypt(underlying_data.data(), rc, reinterpret_cast<byte*>(value), true_size);
+    return static_cast<int>(true_size);
 }
 int FuseHighLevelOps::vsetxattr(const char* path,
                                 const char* name,
-- 
2.43.0


From c790fe8f43741363c3e48e88c981f424eb6ad36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 07/49] fix: setxattr in the lite format ignored empty values

---
 sources/lite_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 7e025f5..7940c23 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1130,7 +1130,7 @@ int FuseHighLevelOps::vsetxattr(const char* path,
     {
         return -EINVAL;
     }
-    if (!value || size == 0)
+    if (!value)
     {
         return 0;
     }
-- 
2.43.0


From 1b89398ffbf5ef9fbb4b6b70750f7028924d2597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 08/49] fix: listing a lite directory with foreign files
 repeated the preceding entries

---
 sources/lite_format.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 7940c23..94f5366 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -671,8 +671,9 @@ namespace
                     continue;
                 try
                 {
+                    bool valid = true;
                     std::visit(Overload{[&](std::string&& decoded) { decoded.swap(*name); },
-                                        [](const InvalidNameTag&) {},
+                                        [&](const InvalidNameTag&) { valid = false; },
                                         [&](const LongNameTag&) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
                                         {
                                             auto&& table = lazy_get_table();
@@ -686,6 +687,11 @@ namespace
                                             std::get<std::string>(decoded).swap(*name);
                                         }},
                                name_trans_.decrypt_path_component(under_name));
+                    if (!valid)
+                    {
+                        // Otherwise the name of the previous entry would be reported again.
+                        continue;
+                    }
                 }
                 catch (const std::exception& e)
                 {
-- 
2.43.0


From f76de7091d1d8b3f042b293dc644d633f83c330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 09/49] fix: rmdir of a non-empty lite directory lost its table
 of long names

---
 sources/lite_format.cpp | 43 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 94f5366..6ed20fa 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -727,6 +727,46 @@ namespace
         bool readdir_plus_;
     };
 
+    // Removes the long name table of a directory, but only when nothing else is left in it, because
+    // the remaining long names could otherwise never be listed again.
+    void remove_unused_long_name_table(OSService& root,
+                                       NameTranslator& name_trans,
+                                       const std::string& enc_dir)
+    {
+        if (name_trans.is_no_op())
+        {
+            return;
+        }
+        const auto journal_name = absl::StrCat(kLongNameTableFileName, "-journal");
+        bool found = false;
+        try
+        {
+            auto traverser = root.create_traverser(root.norm_path_narrowed(enc_dir));
+            std::string name;
+            while (traverser->next(&name, nullptr))
+            {
+                if (name == kLongNameTableFileName || name == journal_name)
+                {
+                    found = true;
+                }
+                else if (name != "." && name != "..")
+                {
+                    return;
+                }
+            }
+        }
+        catch (const std::exception&)
+        {
+            // Not a directory or not accessible. The caller's operation reports the right error.
+            return;
+        }
+        if (found)
+        {
+            root.remove_file_nothrow(absl::StrCat(enc_dir, "/", journal_name));
+            root.remove_file_nothrow(absl::StrCat(enc_dir, "/", kLongNameTableFileName));
+        }
+    }
+
     Base* get_base(fuse_file_info* info)
     {
         return reinterpret_cast<Base*>(static_cast<uintptr_t>(info->fh));
@@ -968,8 +1008,7 @@ int FuseHighLevelOps::vrmdir(const char* path, const fuse_context* ctx)
                                LongNameComponentAction::kDelete,
                                [&](std::string&& enc_path)
                                {
-                                   root_->remove_file_nothrow(
-                                       absl::StrCat(enc_path, "/", kLongNameTableFileName));
+                                   remove_unused_long_name_table(*root_, *name_trans_, enc_path);
                                    root_->remove_directory(enc_path);
                                });
     return 0;
-- 
2.43.0


From 07f430aa9fd53f22d861c2a80f6472a2ef05ba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 10/49] fix: rename in the lite format refused to replace a
 directory that once held long names

---
 sources/lite_format.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 6ed20fa..6bf00c9 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1067,6 +1067,13 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
     auto enc_from = name_trans_->encrypt_full_path(from, &encrypted_last_component_from);
     auto enc_to = name_trans_->encrypt_full_path(to, &encrypted_last_component_to);
 
+    fuse_stat st{};
+    if (root_->stat(enc_from, &st) && (st.st_mode & S_IFMT) == S_IFDIR && enc_from != enc_to)
+    {
+        // A directory with nothing but the table counts as empty and can be replaced.
+        remove_unused_long_name_table(*root_, *name_trans_, enc_to);
+    }
+
     if (encrypted_last_component_from.empty() && encrypted_last_component_to.empty())
     {
         // Neither are long name, so fast path.
-- 
2.43.0


From 28f438c6f84635f59eaf50ced313c2b1dda30564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 11/49] fix: concurrent access to a long name table failed at
 once instead of waiting

---
 sources/lite_long_name_lookup_table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/lite_long_name_lookup_table.cpp b/sources/lite_long_name_lookup_table.cpp
index 119eb44..a3bdc6a 100644
--- a/sources/lite_long_name_lookup_table.cpp
+++ b/sources/lite_long_name_lookup_table.cpp
@@ -44,11 +44,11 @@ LongNameLookupTable::LongNameLookupTable(const std::string& filename, bool reado
         SQLITE_OPEN_NOMUTEX
             | (readonly ? SQLITE_OPEN_READONLY : (SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE)),
         nullptr);
+    db_.set_timeout(2000);
     if (!readonly)
     {
         db_.exec(kCreateTableInMainDb);
     }
-    db_.set_timeout(2000);
 }
 
 LongNameLookupTable::~LongNameLookupTable() {}
-- 
2.43.0


From 51493f2f93c94169f9fcd6fabde06663e409718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 12/49] fix: renaming a long name onto another hard link of the
 same file lost its mapping

---
 sources/lite_format.cpp                 |  6 ++++++
 sources/lite_long_name_lookup_table.cpp | 10 ++++++++++
 sources/lite_long_name_lookup_table.h   |  4 ++++
 3 files changed, 20 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 6bf00c9..99b8c15 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1095,6 +1095,12 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
                                       encrypted_last_component_to);
     }
     root_->rename(enc_from, enc_to);
+    if (!encrypted_last_component_from.empty() && enc_from != enc_to && root_->stat(enc_from, &st))
+    {
+        // Renaming between two hard links of the same file changes nothing.
+        table.restore_mapping_to_from_db(name_trans_->get_last_component(enc_from),
+                                         encrypted_last_component_from);
+    }
     return 0;
 }
 int FuseHighLevelOps::vfsync(const char* path,
diff --git a/sources/lite_long_name_lookup_table.cpp b/sources/lite_long_name_lookup_table.cpp
index a3bdc6a..bd3d7c2 100644
--- a/sources/lite_long_name_lookup_table.cpp
+++ b/sources/lite_long_name_lookup_table.cpp
@@ -146,6 +146,16 @@ void DoubleLongNameLookupTable::remove_mapping_from_from_db(std::string_view key
     q.step();
 }
 
+void DoubleLongNameLookupTable::restore_mapping_to_from_db(std::string_view keyed_hash,
+                                                           std::string_view encrypted_long_name)
+{
+    SQLiteStatement q(db_, kUpdateMainMapping);
+    q.reset();
+    q.bind_text(1, keyed_hash);
+    q.bind_text(2, encrypted_long_name);
+    q.step();
+}
+
 void DoubleLongNameLookupTable::update_mapping_to_to_db(std::string_view keyed_hash,
                                                         std::string_view encrypted_long_name)
 {
diff --git a/sources/lite_long_name_lookup_table.h b/sources/lite_long_name_lookup_table.h
index 22be010..283ee0c 100644
--- a/sources/lite_long_name_lookup_table.h
+++ b/sources/lite_long_name_lookup_table.h
@@ -64,6 +64,10 @@ public:
     void remove_mapping_from_from_db(std::string_view keyed_hash)
         ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
 
+    void restore_mapping_to_from_db(std::string_view keyed_hash,
+                                    std::string_view encrypted_long_name)
+        ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+
     void update_mapping_to_to_db(std::string_view keyed_hash, std::string_view encrypted_long_name)
         ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
 
-- 
2.43.0


From f711697c13011e5c0b4209769bbf4b3e3c9d4d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 13/49] fix: a crash or failed commit left objects with long
 names that are never listed

---
 sources/lite_format.cpp               | 12 ++++++++++++
 sources/lite_long_name_lookup_table.h | 14 ++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 99b8c15..a05e3a6 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1083,6 +1083,12 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
 
     DoubleLongNameLookupTable table(long_name_table_file_name(enc_from),
                                     long_name_table_file_name(enc_to));
+    if (!encrypted_last_component_to.empty())
+    {
+        // See `process_possible_long_name`.
+        table.commit_mapping_to_to_db(name_trans_->get_last_component(enc_to),
+                                      encrypted_last_component_to);
+    }
     LockGuard<decltype(table)> lg(table);
 
     if (!encrypted_last_component_from.empty())
@@ -1272,6 +1278,12 @@ void FuseHighLevelOps::process_possible_long_name(
         return;
     }
     LongNameLookupTable table(long_name_table_file_name(enc_path), false);
+    if (action == LongNameComponentAction::kCreate)
+    {
+        // Commit the mapping before the object exists. A superfluous mapping is harmless, but an
+        // object without mapping, left behind by a crash or a failed commit, cannot be listed.
+        table.commit_mapping(name_trans_->get_last_component(enc_path), encrypted_last_component);
+    }
     // Open a transaction so that we will rollback properly if the following operations fail.
     LockGuard<LongNameLookupTable> table_lg(table);
     switch (action)
diff --git a/sources/lite_long_name_lookup_table.h b/sources/lite_long_name_lookup_table.h
index 283ee0c..0b334c5 100644
--- a/sources/lite_long_name_lookup_table.h
+++ b/sources/lite_long_name_lookup_table.h
@@ -47,6 +47,13 @@ public:
     LongNameLookupTable(const std::string& filename, bool readonly);
     ~LongNameLookupTable();
 
+    ///@brief Inserts and commits a mapping outside of the transaction that `lock()` opens.
+    void commit_mapping(std::string_view keyed_hash, std::string_view encrypted_long_name)
+        ABSL_LOCKS_EXCLUDED(*this) ABSL_NO_THREAD_SAFETY_ANALYSIS
+    {
+        update_mapping(keyed_hash, encrypted_long_name);
+    }
+
     std::string lookup(std::string_view keyed_hash) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
     void update_mapping(std::string_view keyed_hash, std::string_view encrypted_long_name)
         ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
@@ -61,6 +68,13 @@ class ABSL_LOCKABLE DoubleLongNameLookupTable : public internal::LookupTableBase
 public:
     DoubleLongNameLookupTable(const std::string& from_dir_db, const std::string& to_dir_db);
 
+    ///@brief Inserts and commits a mapping outside of the transaction that `lock()` opens.
+    void commit_mapping_to_to_db(std::string_view keyed_hash, std::string_view encrypted_long_name)
+        ABSL_LOCKS_EXCLUDED(*this) ABSL_NO_THREAD_SAFETY_ANALYSIS
+    {
+        update_mapping_to_to_db(keyed_hash, encrypted_long_name);
+    }
+
     void remove_mapping_from_from_db(std::string_view keyed_hash)
         ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
 
-- 
2.43.0


From b68894f03c5f74f67b4be77dee86c01f5a322fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 14/49] fix: removing objects of version 1 repositories left
 their first level directories behind

---
 sources/file_table_v2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index e71e9be..85262ac 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -275,7 +275,7 @@ namespace
             m_root->remove_file_nothrow(filename);
             m_root->remove_file_nothrow(metaname);
             m_root->remove_directory_nothrow(second_level_dir);
-            m_root->remove_directory_nothrow(second_level_dir);
+            m_root->remove_directory_nothrow(first_level_dir);
         }
     };
 
-- 
2.43.0


From 5d6045f9d9f6fea3ab892c5468bc8d68da8e81b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 15/49] fix: closing the last handle of a file could read a
 destroyed object

---
 sources/file_table_v2.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index 85262ac..e9b975a 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -335,9 +335,15 @@ namespace
 
 void FileTableCloser::operator()(FileBase* fb) const
 {
-    if (fb && table_ && fb->decref() <= 0)
+    if (!fb || !table_)
     {
-        table_->close(fb->get_id());
+        return;
+    }
+    // Once the reference is dropped, another thread may close and destroy the object at any time.
+    const id_type id = fb->get_id();
+    if (fb->decref() <= 0)
+    {
+        table_->close(id);
     }
 }
 std::shared_ptr<FileTableIO> make_table_io(std::shared_ptr<OSService> os_service,
-- 
2.43.0


From 83fc004e62568ebdf5b7a791741fb76516b0e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 16/49] fix: concurrent renames of long names in opposite
 directions failed

---
 sources/lite_long_name_lookup_table.cpp | 22 +++++++++++++++-------
 sources/lite_long_name_lookup_table.h   |  3 ++-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/sources/lite_long_name_lookup_table.cpp b/sources/lite_long_name_lookup_table.cpp
index bd3d7c2..19d7273 100644
--- a/sources/lite_long_name_lookup_table.cpp
+++ b/sources/lite_long_name_lookup_table.cpp
@@ -36,6 +36,10 @@ namespace
             delete from main.encrypted_mappings
                 where keyed_hash = ?;
         )";
+    constexpr const char* kDeleteFromSecondaryMapping = R"(
+            delete from secondary.encrypted_mappings
+                where keyed_hash = ?;
+        )";
 }    // namespace
 LongNameLookupTable::LongNameLookupTable(const std::string& filename, bool readonly)
 {
@@ -96,7 +100,7 @@ void LongNameLookupTable::remove_mapping(std::string_view keyed_hash)
     q.step();
 }
 
-void internal::LookupTableBase::begin() { db_.exec("begin;"); }
+void internal::LookupTableBase::begin() { db_.exec(begin_statement_); }
 
 void internal::LookupTableBase::finish() noexcept
 {
@@ -119,9 +123,12 @@ void internal::LookupTableBase::finish() noexcept
 
 DoubleLongNameLookupTable::DoubleLongNameLookupTable(const std::string& from_dir_db,
                                                      const std::string& to_dir_db)
-    : is_same_db_(from_dir_db == to_dir_db)
+    : is_same_db_(from_dir_db == to_dir_db), is_from_secondary_(to_dir_db < from_dir_db)
 {
-    db_ = SQLiteDB(from_dir_db.c_str(),
+    // Always lock both databases, and in the same order, lest two renames in opposite directions
+    // wait for each other.
+    begin_statement_ = "begin immediate;";
+    db_ = SQLiteDB((is_from_secondary_ ? to_dir_db : from_dir_db).c_str(),
                    SQLITE_OPEN_NOMUTEX | SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE,
                    nullptr);
     db_.set_timeout(2000);
@@ -132,7 +139,7 @@ DoubleLongNameLookupTable::DoubleLongNameLookupTable(const std::string& from_dir
     }
     {
         SQLiteStatement attacher(db_, "attach database ? as secondary;");
-        attacher.bind_text(1, to_dir_db);
+        attacher.bind_text(1, is_from_secondary_ ? from_dir_db : to_dir_db);
         attacher.step();
     }
     db_.exec(absl::StrCat(kCreateTableInMainDb, ";\n", kCreateTableInSecondaryDb).c_str());
@@ -140,7 +147,7 @@ DoubleLongNameLookupTable::DoubleLongNameLookupTable(const std::string& from_dir
 
 void DoubleLongNameLookupTable::remove_mapping_from_from_db(std::string_view keyed_hash)
 {
-    SQLiteStatement q(db_, kDeleteFromMainMapping);
+    SQLiteStatement q(db_, is_from_secondary_ ? kDeleteFromSecondaryMapping : kDeleteFromMainMapping);
     q.reset();
     q.bind_text(1, keyed_hash);
     q.step();
@@ -149,7 +156,7 @@ void DoubleLongNameLookupTable::remove_mapping_from_from_db(std::string_view key
 void DoubleLongNameLookupTable::restore_mapping_to_from_db(std::string_view keyed_hash,
                                                            std::string_view encrypted_long_name)
 {
-    SQLiteStatement q(db_, kUpdateMainMapping);
+    SQLiteStatement q(db_, is_from_secondary_ ? kUpdateSecondaryMapping : kUpdateMainMapping);
     q.reset();
     q.bind_text(1, keyed_hash);
     q.bind_text(2, encrypted_long_name);
@@ -159,7 +166,8 @@ void DoubleLongNameLookupTable::restore_mapping_to_from_db(std::string_view keye
 void DoubleLongNameLookupTable::update_mapping_to_to_db(std::string_view keyed_hash,
                                                         std::string_view encrypted_long_name)
 {
-    SQLiteStatement q(db_, is_same_db_ ? kUpdateMainMapping : kUpdateSecondaryMapping);
+    SQLiteStatement q(
+        db_, is_same_db_ || is_from_secondary_ ? kUpdateMainMapping : kUpdateSecondaryMapping);
     q.reset();
     q.bind_text(1, keyed_hash);
     q.bind_text(2, encrypted_long_name);
diff --git a/sources/lite_long_name_lookup_table.h b/sources/lite_long_name_lookup_table.h
index 0b334c5..4bf477b 100644
--- a/sources/lite_long_name_lookup_table.h
+++ b/sources/lite_long_name_lookup_table.h
@@ -31,6 +31,7 @@ namespace internal
 
     protected:
         SQLiteDB db_ ABSL_GUARDED_BY(*this);
+        const char* begin_statement_ = "begin;";
 
     protected:
         void begin() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
@@ -86,6 +87,6 @@ public:
         ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
 
 private:
-    bool is_same_db_;
+    bool is_same_db_, is_from_secondary_;
 };
 }    // namespace securefs
-- 
2.43.0


From 143764aa5239bef9b5037e2786d81798c8814b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 17/49] fix: two processes could both take over or create the
 lock of a repository

---
 sources/full_format.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index f49c7b8..87dde18 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -1,6 +1,7 @@
 #include "full_format.h"
 #include "exceptions.h"
 #include "files.h"
+#include "lock_guard.h"
 #include "logger.h"
 #include "myutils.h"
 #include "platform.h"
@@ -691,10 +692,30 @@ void FuseHighLevelOps::postprocess_stat(fuse_stat* st)
 
 void RepoLocker::check_lock_file()
 {
-    lock_stream_ = open_lock_stream_checked();
     auto pid = absl::StrCat(OSService::get_current_process_id());
-    lock_stream_->resize(0);
-    lock_stream_->write(pid.data(), 0, pid.size());
+    while (true)
+    {
+        auto stream = open_lock_stream_checked();
+        // Other processes may have opened the same file at the same time, so only one of them at a
+        // time may look at the recorded process and replace it.
+        LockGuard<FileStream> lg(*stream, true);
+        fuse_stat st{};
+        stream->fstat(&st);
+        if (st.st_nlink == 0)
+        {
+            continue;    // Removed by its holder in the meantime.
+        }
+        pid_t holder{};
+        if (absl::SimpleAtoi(stream->as_string(), &holder)
+            && OSService::is_process_running(holder))
+        {
+            throwVFSException(EEXIST);
+        }
+        stream->resize(0);
+        stream->write(pid.data(), 0, pid.size());
+        lock_stream_ = stream;
+        return;
+    }
 }
 
 std::shared_ptr<FileStream> RepoLocker::open_lock_stream_checked()
-- 
2.43.0


From b3f1fd7693545ecab6b7d0816f48701063e5c1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 18/49] fix: getpath used the names of directories after they
 were released

---
 sources/full_format.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 87dde18..eb5d8e5 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -506,11 +506,12 @@ int FuseHighLevelOps::vgetpath(
     absl::InlinedVector<std::string_view, 7> splits = absl::StrSplit(path, '/', absl::SkipEmpty());
     auto parent_id = kRootId;
     FilePtrHolder holder = ft_->open_as(kRootId, Directory::class_type());
+    std::string result;
+    result.reserve(strlen(path) + 31);
     for (auto& split : splits)
     {
         id_type id;
         int type;
-        std::string_view normed_name;
         {
             FileLockGuard lg(*holder);
             auto get_result = holder->cast_as<Directory>()->get_entry(split, id, type);
@@ -518,19 +519,13 @@ int FuseHighLevelOps::vgetpath(
             {
                 throwVFSException(ENOENT);
             }
-            normed_name = *get_result;
+            // The stored name is only valid while the directory is locked.
+            result.push_back('/');
+            result.append(get_result->data(), get_result->size());
         }
         holder = ft_->open_as(id, type);
         holder->set_parent_id(parent_id);
         parent_id = holder->get_id();
-        split = normed_name;
-    }
-    std::string result;
-    result.reserve(strlen(path) + 31);
-    for (auto p : splits)
-    {
-        result.push_back('/');
-        result.append(p.data(), p.size());
     }
     return copy_and_return(result);
 };
-- 
2.43.0


From 419ff547789799142fb1e67f8252887dc9420a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 19/49] fix: creating an object failed when another thread
 removed its directory meanwhile

---
 sources/file_table_v2.cpp | 41 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index e9b975a..bc33cef 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -217,6 +217,30 @@ FileTable::~FileTable()
 
 namespace
 {
+    // Another thread may remove the still empty directory, because it has just removed the last
+    // object of it, before the new file is in place.
+    template <class EnsureDirectory>
+    std::shared_ptr<FileStream> create_in_shared_directory(OSService& root,
+                                                           const std::string& filename,
+                                                           EnsureDirectory&& ensure_directory)
+    {
+        for (int attempts = 0;; ++attempts)
+        {
+            try
+            {
+                ensure_directory();
+                return root.open_file_stream(filename, O_RDWR | O_CREAT | O_EXCL, 0644);
+            }
+            catch (const ExceptionBase& e)
+            {
+                if (e.error_number() != ENOENT || attempts >= 100)
+                {
+                    throw;
+                }
+            }
+        }
+    }
+
     class FileTableIOVersion1 : public FileTableIO
     {
     private:
@@ -261,10 +285,16 @@ namespace
         {
             std::string first_level_dir, second_level_dir, filename, metaname;
             calculate_paths(id, first_level_dir, second_level_dir, filename, metaname);
-            m_root->ensure_directory(first_level_dir, 0755);
-            m_root->ensure_directory(second_level_dir, 0755);
+            auto data = create_in_shared_directory(
+                *m_root,
+                filename,
+                [&]()
+                {
+                    m_root->ensure_directory(first_level_dir, 0755);
+                    m_root->ensure_directory(second_level_dir, 0755);
+                });
             int open_flags = O_RDWR | O_CREAT | O_EXCL;
-            return std::make_pair(m_root->open_file_stream(filename, open_flags, 0644),
+            return std::make_pair(std::move(data),
                                   m_root->open_file_stream(metaname, open_flags, 0644));
         }
 
@@ -315,9 +345,10 @@ namespace
         {
             std::string dir, filename, metaname;
             calculate_paths(id, dir, filename, metaname);
-            m_root->ensure_directory(dir, 0755);
+            auto data = create_in_shared_directory(
+                *m_root, filename, [&]() { m_root->ensure_directory(dir, 0755); });
             int open_flags = O_RDWR | O_CREAT | O_EXCL;
-            return std::make_pair(m_root->open_file_stream(filename, open_flags, 0644),
+            return std::make_pair(std::move(data),
                                   m_root->open_file_stream(metaname, open_flags, 0644));
         }
 
-- 
2.43.0


From 0a906d773e543ff51315f3819179868514054674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 20/49] fix: changing the long name suffix failed on stale
 mappings

---
 sources/lite_format.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index a05e3a6..9586711 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1385,6 +1385,11 @@ void change_long_name_suffix(const std::string& data_dir,
             auto old_value = table.lookup(hash);
             table.update_mapping(new_hash, old_value);
             table.remove_mapping(hash);
+            fuse_stat st{};
+            if (!root.stat(absl::StrCat(dir, "/", hash), &st))
+            {
+                continue;    // A stale mapping, e.g. of a file whose creation was interrupted.
+            }
             root.rename(absl::StrCat(dir, "/", hash), absl::StrCat(dir, "/", new_hash));
         }
     }
-- 
2.43.0


From 89813a6bfbe755b826a78d95d943f31d276ea13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 21/49] fix: a crash while creating a padded lite file left a
 file that cannot be opened

---
 sources/lite_stream.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sources/lite_stream.cpp b/sources/lite_stream.cpp
index 72bdc47..387d0f9 100644
--- a/sources/lite_stream.cpp
+++ b/sources/lite_stream.cpp
@@ -100,14 +100,17 @@ AESGCMCryptStream::AESGCMCryptStream(std::shared_ptr<StreamBase> stream,
     if (rc == 0)
     {
         generate_random(id.data(), id.size());
-        m_stream->write(id.data(), 0, id.size());
         m_padding_size = calc.compute_padding(id);
         m_auxiliary.resize(sizeof(std::uint32_t) + m_padding_size, 0);
         if (m_padding_size)
         {
             generate_random(m_auxiliary.data(), m_auxiliary.size());
-            m_stream->write(m_auxiliary.data() + sizeof(std::uint32_t), id.size(), m_padding_size);
         }
+        // Written at once, because a file with an incomplete header can never be opened again.
+        std::vector<byte> header(id.begin(), id.end());
+        header.insert(
+            header.end(), m_auxiliary.begin() + sizeof(std::uint32_t), m_auxiliary.end());
+        m_stream->write(header.data(), 0, header.size());
     }
     else if (rc != id.size())
     {
-- 
2.43.0


From a07ffc8cfac148f26b7d6839cdea9b17cef9f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 22/49] fix: a lite file whose creation was interrupted could
 not be opened for reading

---
 sources/lite_format.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 9586711..6b6106b 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1243,8 +1243,14 @@ std::unique_ptr<File> FuseHighLevelOps::open(std::string_view path, int flags, u
         {
             // The underlying file must never be truncated to nothing, because its header holds the
             // session key which other open handles keep using.
-            fp = std::make_unique<File>(
-                root_->open_file_stream(enc_path, flags & ~O_TRUNC, mode), *opener_);
+            auto stream = root_->open_file_stream(enc_path, flags & ~O_TRUNC, mode);
+            if ((flags & O_ACCMODE) == O_RDONLY && stream->size() == 0)
+            {
+                // The creation of the file was interrupted, and its header has to be written first.
+                stream = root_->open_file_stream(
+                    enc_path, (flags & ~(O_ACCMODE | O_TRUNC)) | O_RDWR, mode);
+            }
+            fp = std::make_unique<File>(std::move(stream), *opener_);
         });
 
     if (flags & O_TRUNC)
-- 
2.43.0


From df138f6d2958f62fe1db9bf637d4ba7a166c4480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 23/49] fix: rename locked the replaced item in an order that
 can be reported as a deadlock

---
 sources/full_format.cpp | 48 +++++++++++++++++++++++++++++++++++++++--
 sources/full_format.h   |  1 +
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index eb5d8e5..eb105a4 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -333,6 +333,15 @@ int FuseHighLevelOps::vreadlink(const char* path, char* buf, size_t size, const
     return 0;
 };
 int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_context* ctx)
+{
+    int rc;
+    do
+    {
+        rc = try_rename(from, to);
+    } while (rc == -EAGAIN);
+    return rc;
+}
+int FuseHighLevelOps::try_rename(const char* from, const char* to)
 {
     auto [base_from, last_from] = open_base(from);
     auto [base_to, last_to] = open_base(to);
@@ -345,6 +354,32 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
     id_type from_id, to_id;
     int from_type, to_type;
 
+    FilePtrHolder replaced(nullptr, FileTableCloser(ft_.get()));
+    bool has_to_item;
+    {
+        FileLockGuard lg(*base_to);
+        has_to_item = base_to->cast_as<Directory>()->get_entry(last_to, to_id, to_type).has_value();
+    }
+    if (has_to_item)
+    {
+        // It has to be opened before the directories are locked.
+        try
+        {
+            replaced = ft_->open_as(to_id, to_type);
+        }
+        catch (const ExceptionBase&)
+        {
+            id_type current_id;
+            FileLockGuard lg(*base_to);
+            if (base_to->cast_as<Directory>()->get_entry(last_to, current_id, to_type)
+                && current_id == to_id)
+            {
+                throw;
+            }
+            return -EAGAIN;    // Removed by another thread in between.
+        }
+    }
+
     // Nothing is removed before it is certain that the rename can go through.
     DoubleFileLockGuard lg(*base_from, *base_to);
     auto dir_from = base_from->cast_as<Directory>();
@@ -356,11 +391,20 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
         return -ENOENT;
     }
     std::string stored_name(*stored_from);
-    bool has_to_item = dir_to->get_entry(last_to, to_id, to_type).has_value();
+
+    id_type current_to_id;
+    if (dir_to->get_entry(last_to, current_to_id, to_type).has_value() != has_to_item
+        || (has_to_item && current_to_id != to_id))
+    {
+        return -EAGAIN;    // Changed by another thread in between.
+    }
 
     if (has_to_item && from_id != to_id)
     {
-        auto replaced = ft_->open_as(to_id, to_type);
+        if (replaced.get() == base_from.get())
+        {
+            return -ENOTEMPTY;
+        }
         SpinFileLockGuard replaced_lg(*replaced);
         if (to_type == Directory::class_type())
         {
diff --git a/sources/full_format.h b/sources/full_format.h
index 4a67361..42639b9 100644
--- a/sources/full_format.h
+++ b/sources/full_format.h
@@ -182,6 +182,7 @@ private:
         info->fh = reinterpret_cast<uintptr_t>(fb);
     }
 
+    int try_rename(const char* from, const char* to);
     void postprocess_stat(fuse_stat* st);
 };
 }    // namespace securefs::full_format
-- 
2.43.0


From 101546450f91257cf7b9c69fed2734a2dde38cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 24/49] fix: creating an item whose name is too long leaked its
 storage

---
 sources/full_format.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index eb105a4..54236f5 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -661,10 +661,17 @@ FuseHighLevelOps::create(absl::string_view path, unsigned mode, int type, int ui
         holder->initialize_empty((mode & 0777) | FileBase::mode_for_type(type), uid, gid);
     }
     bool success = false;
+    try
     {
         FileLockGuard lg(*base_dir);
         success = base_dir->cast_as<Directory>()->add_entry(last_component, holder->get_id(), type);
     }
+    catch (...)
+    {
+        FileLockGuard lg(*holder);
+        holder->unlink();
+        throw;
+    }
     if (!success)
     {
         FileLockGuard lg(*holder);
-- 
2.43.0


From 75968fdee44389fb4bb8feec77e433b3a8fe4d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 25/49] fix: a directory could be moved into itself when its
 name was spelled differently

In repositories that ignore case or normalization the kernel does not see that
both paths lead through the same directory, and the directory with everything
below it was lost.
---
 sources/files.h         |  3 +++
 sources/full_format.cpp | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/sources/files.h b/sources/files.h
index ce44fe5..d1c4a39 100644
--- a/sources/files.h
+++ b/sources/files.h
@@ -488,6 +488,9 @@ public:
 
     virtual bool empty() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this) = 0;
 
+    /// Whether both names denote the same entry.
+    bool is_same_name(std::string_view a, std::string_view b) const { return cmpfn_(a, b) == 0; }
+
 protected:
     virtual std::optional<std::string_view>
     get_entry_impl(std::string_view name, id_type& id, int& type) = 0;
diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 54236f5..6d836e8 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -11,6 +11,7 @@
 #include <absl/strings/str_cat.h>
 #include <absl/strings/str_split.h>
 
+#include <algorithm>
 #include <cerrno>
 #include <cstdint>
 #include <cstdlib>
@@ -392,6 +393,25 @@ int FuseHighLevelOps::try_rename(const char* from, const char* to)
     }
     std::string stored_name(*stored_from);
 
+    if (from_type == Directory::class_type())
+    {
+        // A directory cannot be moved into itself. The caller only notices that when all the names
+        // in both paths are spelled the same.
+        absl::InlinedVector<std::string_view, 7> from_splits
+            = absl::StrSplit(from, '/', absl::SkipEmpty());
+        absl::InlinedVector<std::string_view, 7> to_splits
+            = absl::StrSplit(to, '/', absl::SkipEmpty());
+        if (from_splits.size() < to_splits.size()
+            && std::equal(from_splits.begin(),
+                          from_splits.end(),
+                          to_splits.begin(),
+                          [&](std::string_view a, std::string_view b)
+                          { return dir_from->is_same_name(a, b); }))
+        {
+            return -EINVAL;
+        }
+    }
+
     id_type current_to_id;
     if (dir_to->get_entry(last_to, current_to_id, to_type).has_value() != has_to_item
         || (has_to_item && current_to_id != to_id))
-- 
2.43.0


From d57a9bf132dc48ca3dc04877381f22c06581afbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 26/49] fix: rebuilding a directory index reset the times of
 the directory

---
 sources/btree_dir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btree_dir.cpp b/sources/btree_dir.cpp
index 5994c14..047026c 100644
--- a/sources/btree_dir.cpp
+++ b/sources/btree_dir.cpp
@@ -760,7 +760,7 @@ void BtreeDirectory::rebuild()
     set_start_free_page(INVALID_PAGE);
     set_root_page(INVALID_PAGE);
     for (DirEntry& e : entries)
-        add_entry(e.filename, e.id, e.type);
+        add_entry_impl(e.filename, e.id, e.type);
 }
 
 bool BtreeDirectory::empty()
-- 
2.43.0


From cb21249cf68c8660acecb2fea05701cc5b3a45cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 27/49] fix: after a crash long names were not listed until
 their table was written again

---
 sources/lite_long_name_lookup_table.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sources/lite_long_name_lookup_table.cpp b/sources/lite_long_name_lookup_table.cpp
index 19d7273..e2d7e6d 100644
--- a/sources/lite_long_name_lookup_table.cpp
+++ b/sources/lite_long_name_lookup_table.cpp
@@ -43,11 +43,12 @@ namespace
 }    // namespace
 LongNameLookupTable::LongNameLookupTable(const std::string& filename, bool readonly)
 {
-    db_ = SQLiteDB(
-        filename.c_str(),
-        SQLITE_OPEN_NOMUTEX
-            | (readonly ? SQLITE_OPEN_READONLY : (SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE)),
-        nullptr);
+    // Even a reader needs write access when it comes across the journal of a transaction that was
+    // interrupted by a crash. SQLite falls back to reading only if the file is write protected.
+    db_ = SQLiteDB(filename.c_str(),
+                   SQLITE_OPEN_NOMUTEX | SQLITE_OPEN_READWRITE
+                       | (readonly ? 0 : SQLITE_OPEN_CREATE),
+                   nullptr);
     db_.set_timeout(2000);
     if (!readonly)
     {
-- 
2.43.0


From 70d3b69eef3c5e9d4e73bfc5ef0201dfcab5abe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 28/49] fix: a directory could not be removed after a crash
 while renaming a long name into or out of it

---
 sources/lite_format.cpp | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 6b6106b..472cc18 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -18,6 +18,7 @@
 #include <absl/strings/str_format.h>
 #include <absl/strings/str_join.h>
 #include <absl/strings/str_split.h>
+#include <absl/strings/strip.h>
 #include <absl/utility/utility.h>
 #include <cryptopp/blake2.h>
 #include <cryptopp/sha.h>
@@ -727,6 +728,34 @@ namespace
         bool readdir_plus_;
     };
 
+    // Removes a super-journal after recovering all the tables that may still depend on it.
+    void remove_super_journal(OSService& root, const std::string& enc_path)
+    {
+        try
+        {
+            auto stream = root.open_file_stream(enc_path, O_RDONLY, 0);
+            std::string journals(stream->size(), 0);
+            journals.resize(stream->read(journals.data(), 0, journals.size()));
+            for (absl::string_view journal : absl::StrSplit(journals, '\0'))
+            {
+                fuse_stat st{};
+                if (root.stat(std::string(journal), &st)
+                    && absl::ConsumeSuffix(&journal, "-journal"))
+                {
+                    LongNameLookupTable table(std::string(journal), true);
+                    LockGuard<LongNameLookupTable> lg(table);
+                    (void)table.list_hashes();
+                }
+            }
+        }
+        catch (const std::exception& e)
+        {
+            WARN_LOG("Failed to recover from super-journal %s: %s", enc_path, e.what());
+            return;
+        }
+        root.remove_file_nothrow(enc_path);
+    }
+
     // Removes the long name table of a directory, but only when nothing else is left in it, because
     // the remaining long names could otherwise never be listed again.
     void remove_unused_long_name_table(OSService& root,
@@ -738,6 +767,9 @@ namespace
             return;
         }
         const auto journal_name = absl::StrCat(kLongNameTableFileName, "-journal");
+        // A crash while renaming between directories can leave the super-journal of SQLite behind.
+        const auto super_journal_prefix = absl::StrCat(kLongNameTableFileName, "-mj");
+        std::vector<std::string> super_journals;
         bool found = false;
         try
         {
@@ -749,6 +781,10 @@ namespace
                 {
                     found = true;
                 }
+                else if (absl::StartsWith(name, super_journal_prefix))
+                {
+                    super_journals.push_back(name);
+                }
                 else if (name != "." && name != "..")
                 {
                     return;
@@ -760,6 +796,10 @@ namespace
             // Not a directory or not accessible. The caller's operation reports the right error.
             return;
         }
+        for (const auto& name : super_journals)
+        {
+            remove_super_journal(root, absl::StrCat(enc_dir, "/", name));
+        }
         if (found)
         {
             root.remove_file_nothrow(absl::StrCat(enc_dir, "/", journal_name));
-- 
2.43.0


From bf07fb63288abe8338e4eb95c07c354bbd5f4168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 29/49] fix: fsync in the full format did not write the header
 of the file

---
 sources/full_format.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 6d836e8..d50e784 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -456,6 +456,7 @@ int FuseHighLevelOps::vfsync(const char* path,
 {
     auto fp = get_file(info);
     FileLockGuard lg(*fp);
+    fp->flush();
     fp->fsync();
     return 0;
 };
-- 
2.43.0


From c29c75a5366f9552b318ef82f02866853f834fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:47 +0000
Subject: [PATCH 30/49] fix: a configuration whose MAC was cut short or removed
 was accepted

---
 sources/params_io.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/params_io.cpp b/sources/params_io.cpp
index 8d121e3..11ab0a9 100644
--- a/sources/params_io.cpp
+++ b/sources/params_io.cpp
@@ -200,6 +200,10 @@ DecryptedSecurefsParams decrypt(const LegacySecurefsJsonParams& legacy,
             auto iv = parse_hex(legacy.encrypted_key().iv());
             auto mac = parse_hex(legacy.encrypted_key().mac());
             auto ciphertext = parse_hex(legacy.encrypted_key().ciphertext());
+            if (mac.size() != kParamMacSize)
+            {
+                return false;    // A truncated MAC would be accepted by the library.
+            }
             auto header = get_version_header(legacy.version());
 
             CryptoPP::GCM<CryptoPP::AES>::Decryption dec;
@@ -280,6 +284,11 @@ DecryptedSecurefsParams decrypt(const EncryptedSecurefsParams& encparams,
                                 absl::Span<const byte> password,
                                 /* nullable */ StreamBase* key_stream)
 {
+    if (encparams.mac().size() != kParamMacSize)
+    {
+        // A truncated MAC would be accepted by the library.
+        throw_runtime_error("The config file has an invalid MAC");
+    }
     auto wrapping_key = compute_password_derived_key(encparams, password, key_stream);
     CryptoPP::GCM<CryptoPP::AES>::Decryption dec;
     dec.SetKeyWithIV(wrapping_key.data(),
-- 
2.43.0


From 35f69e713484eb9885f639d09efb706be78707f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:06 +0000
Subject: [PATCH 31/49] fix: changing the long name suffix failed half way when
 a directory was renamed before its content

---
 sources/lite_format.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 472cc18..9ad0dd7 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -20,6 +20,7 @@
 #include <absl/strings/str_split.h>
 #include <absl/strings/strip.h>
 #include <absl/utility/utility.h>
+#include <algorithm>
 #include <cryptopp/blake2.h>
 #include <cryptopp/sha.h>
 #include <cstdio>
@@ -1410,6 +1411,11 @@ void change_long_name_suffix(const std::string& data_dir,
                                     dirs_with_long_name_table.push_back(dir);
                                 }
                             });
+    // Renaming a directory invalidates the collected paths of everything below it.
+    std::stable_sort(dirs_with_long_name_table.begin(),
+                     dirs_with_long_name_table.end(),
+                     [](const std::string& a, const std::string& b)
+                     { return a.size() > b.size(); });
 
     for (const auto& dir : dirs_with_long_name_table)
     {
-- 
2.43.0


From 4fa5c89962bc6f7b8ddbb0dc9dc3684e13f25ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 32/49] fix: a long name suffix of base32 characters made other
 entries disappear

---
 sources/commands.cpp    |  8 ++++++++
 sources/lite_format.cpp | 19 +++++++++++++++++++
 sources/lite_format.h   |  4 ++++
 3 files changed, 31 insertions(+)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index 2bf7b62..36c081b 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -323,6 +323,10 @@ public:
                 params.mutable_lite_format_params()->set_long_name_threshold(
                     long_name_threshold.getValue());
             }
+            if (!long_name_suffix_arg.getValue().empty())
+            {
+                lite_format::check_long_name_suffix(long_name_suffix_arg.getValue());
+            }
             params.mutable_lite_format_params()->set_long_name_suffix(
                 long_name_suffix_arg.getValue());
         }
@@ -1151,6 +1155,10 @@ public:
         }
         else
         {
+            if (!long_name_suffix_arg.getValue().empty())
+            {
+                lite_format::check_long_name_suffix(long_name_suffix_arg.getValue());
+            }
             size_t max_filename_length = 0;
             OSService::get_default().recursive_traverse(
                 single_pass_holder_.data_dir.getValue(),
diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 9ad0dd7..a362be7 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -13,6 +13,7 @@
 
 #include <absl/base/thread_annotations.h>
 #include <absl/container/inlined_vector.h>
+#include <absl/strings/ascii.h>
 #include <absl/strings/match.h>
 #include <absl/strings/str_cat.h>
 #include <absl/strings/str_format.h>
@@ -1383,6 +1384,23 @@ std::string_view NameTranslator::remove_last_component(std::string_view path)
     return path.substr(0, path.rfind('/') + 1);
 }
 
+void check_long_name_suffix(absl::string_view suffix)
+{
+    // The length of an encrypted hash in base32 is 77, and usual file systems allow 255.
+    if (suffix.size() > 255 - 77 || absl::StrContains(suffix, '/'))
+    {
+        throwInvalidArgumentException("The long name suffix cannot be part of a file name");
+    }
+    if (std::all_of(suffix.begin(),
+                    suffix.end(),
+                    [](char c) { return absl::ascii_isupper(c) || absl::ascii_isdigit(c); }))
+    {
+        throwInvalidArgumentException(
+            "The long name suffix must contain more than upper case letters and digits, otherwise "
+            "it cannot be distinguished from encrypted names");
+    }
+}
+
 void change_long_name_suffix(const std::string& data_dir,
                              DecryptedSecurefsParams& mutable_params,
                              const std::string& new_long_name_suffix)
@@ -1391,6 +1409,7 @@ void change_long_name_suffix(const std::string& data_dir,
     {
         throwInvalidArgumentException("new_long_name_suffix cannot be empty");
     }
+    check_long_name_suffix(new_long_name_suffix);
     std::string_view old_suffix = mutable_params.lite_format_params().long_name_suffix();
     if (old_suffix.empty())
     {
diff --git a/sources/lite_format.h b/sources/lite_format.h
index c8abcae..408d01f 100644
--- a/sources/lite_format.h
+++ b/sources/lite_format.h
@@ -431,6 +431,10 @@ private:
     std::string long_name_table_file_name(absl::string_view enc_path);
 };
 
+// Throws if encrypted names with this suffix would be mistaken for short ones, or vice versa, or cannot
+// be stored at all.
+void check_long_name_suffix(absl::string_view suffix);
+
 void change_long_name_suffix(const std::string& data_dir,
                              DecryptedSecurefsParams& mutable_params,
                              const std::string& new_long_name_suffix);
-- 
2.43.0


From f08a838941f6ceb6190d2c90e2abf172ed9dd49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:22 +0000
Subject: [PATCH 33/49] fix: create shadowed an existing configuration in the
 legacy format

---
 sources/commands.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index 36c081b..2758b52 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -305,6 +305,16 @@ public:
     int execute() override
     {
         OSService::get_default().ensure_directory(single_pass_holder_.data_dir.getValue(), 0755);
+        if (single_pass_holder_.config_path.getValue().empty())
+        {
+            fuse_stat st{};
+            if (OSService(single_pass_holder_.data_dir.getValue())
+                    .stat(std::string(kLegacyConfigFileName), &st))
+            {
+                throw_runtime_error("The directory already contains a repository with the config "
+                                    "file .securefs.json");
+            }
+        }
 
         DecryptedSecurefsParams params;
         params.mutable_size_params()->set_iv_size(iv_size.getValue());
-- 
2.43.0


From 3f251b7773e88844266f0ef023d9e156070ac23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 34/49] fix: an interrupted migrate-long-name made all later
 attempts fail

---
 sources/commands.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index 2758b52..eaa8f8b 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -1199,7 +1199,10 @@ public:
                       {single_pass_holder_.password.data(), single_pass_holder_.password.size()},
                       maybe_open_key_stream(single_pass_holder_.keyfile.getValue()).get())
                   .SerializeAsString();
-        auto tmp_path = absl::StrCat(real_config_path, ".tmp");
+        byte buffer[16];
+        generate_random(buffer, array_length(buffer));
+        // A fixed name would make all later attempts fail after an interrupted one.
+        auto tmp_path = real_config_path + hexify(buffer, array_length(buffer));
         auto stream = OSService::get_default().open_file_stream(
             tmp_path, O_WRONLY | O_CREAT | O_EXCL, 0644);
         DEFER(if (has_uncaught_exceptions()) {
-- 
2.43.0


From d9fadc22202267dfa3197b91d3a2d03863afccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 35/49] fix: repeating an interrupted change of the long name
 suffix could change names twice

---
 sources/lite_format.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index a362be7..e5c2662 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1384,10 +1384,12 @@ std::string_view NameTranslator::remove_last_component(std::string_view path)
     return path.substr(0, path.rfind('/') + 1);
 }
 
+// The number of base32 characters for the encrypted hash of a long name.
+static constexpr size_t kEncryptedHashLength = 77;
+
 void check_long_name_suffix(absl::string_view suffix)
 {
-    // The length of an encrypted hash in base32 is 77, and usual file systems allow 255.
-    if (suffix.size() > 255 - 77 || absl::StrContains(suffix, '/'))
+    if (suffix.size() > 255 - kEncryptedHashLength || absl::StrContains(suffix, '/'))
     {
         throwInvalidArgumentException("The long name suffix cannot be part of a file name");
     }
@@ -1447,7 +1449,10 @@ void change_long_name_suffix(const std::string& data_dir,
         auto hashes = table.list_hashes();
         for (const auto& hash : hashes)
         {
-            if (!absl::EndsWith(hash, old_suffix))
+            // The length tells them from those already changed by an interrupted attempt, when the
+            // new suffix ends with the old one.
+            if (!absl::EndsWith(hash, old_suffix)
+                || hash.size() != kEncryptedHashLength + old_suffix.size())
             {
                 continue;
             }
-- 
2.43.0


From 59b71ead3d457877047b5a686bc42a3172cc06e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 36/49] fix: a failed commit during migrate-long-name went
 unnoticed and lost names

---
 sources/lite_format.cpp                 | 2 ++
 sources/lite_long_name_lookup_table.cpp | 6 ++++++
 sources/lite_long_name_lookup_table.h   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index e5c2662..d6ccd5e 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1468,6 +1468,8 @@ void change_long_name_suffix(const std::string& data_dir,
             }
             root.rename(absl::StrCat(dir, "/", hash), absl::StrCat(dir, "/", new_hash));
         }
+        // The new suffix must not be recorded unless the mappings are.
+        table.commit_pending();
     }
 
     mutable_params.mutable_lite_format_params()->set_long_name_suffix(new_long_name_suffix);
diff --git a/sources/lite_long_name_lookup_table.cpp b/sources/lite_long_name_lookup_table.cpp
index e2d7e6d..93861bc 100644
--- a/sources/lite_long_name_lookup_table.cpp
+++ b/sources/lite_long_name_lookup_table.cpp
@@ -101,6 +101,12 @@ void LongNameLookupTable::remove_mapping(std::string_view keyed_hash)
     q.step();
 }
 
+void LongNameLookupTable::commit_pending()
+{
+    db_.exec("commit");
+    db_.exec(begin_statement_);
+}
+
 void internal::LookupTableBase::begin() { db_.exec(begin_statement_); }
 
 void internal::LookupTableBase::finish() noexcept
diff --git a/sources/lite_long_name_lookup_table.h b/sources/lite_long_name_lookup_table.h
index 4bf477b..669925d 100644
--- a/sources/lite_long_name_lookup_table.h
+++ b/sources/lite_long_name_lookup_table.h
@@ -61,6 +61,10 @@ public:
     void remove_mapping(std::string_view keyed_hash) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
 
     std::vector<std::string> list_hashes() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+
+    ///@brief Commits what is pending in the transaction, and starts another one. Unlike `unlock()`,
+    /// it throws when the commit fails.
+    void commit_pending() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
 };
 
 ///@brief Only used in `rename` operations, when two operations need to be atomic together.
-- 
2.43.0


From 62084fe71450ac21dd88c67fb526d9c885ceac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:02 +0000
Subject: [PATCH 37/49] fix: the full format accessed the repository before
 locking and after unlocking it

---
 sources/full_format.h      | 7 ++++---
 sources/internal_mount.cpp | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sources/full_format.h b/sources/full_format.h
index 42639b9..1071e8e 100644
--- a/sources/full_format.h
+++ b/sources/full_format.h
@@ -60,8 +60,8 @@ public:
                      StrongType<bool, tCaseInsensitive> case_insensitive,
                      StrongType<bool, tEnableXattr> enable_xattr)
         : root_(std::move(root))
-        , ft_(std::move(ft))
         , locker_(std::move(locker))
+        , ft_(std::move(ft))
         , owner_override_(owner_override)
         , case_insensitive_(case_insensitive.get())
         , enable_xattr_(enable_xattr.get())
@@ -148,9 +148,10 @@ public:
 
 private:
     std::shared_ptr<OSService> root_;
+    // We only needs this to construct and destruct. It must outlive the file table, which writes to
+    // the repository when destroyed.
+    [[maybe_unused]] std::shared_ptr<RepoLocker> locker_;
     std::shared_ptr<FileTable> ft_;
-    [[maybe_unused]] std::shared_ptr<RepoLocker>
-        locker_;    // We only needs this to construct and destruct.
     OwnerOverride owner_override_;
     bool case_insensitive_;
     bool enable_xattr_;
diff --git a/sources/internal_mount.cpp b/sources/internal_mount.cpp
index c63c320..d16f89f 100644
--- a/sources/internal_mount.cpp
+++ b/sources/internal_mount.cpp
@@ -183,9 +183,10 @@ make_full_format_fuse_high_level_ops(std::shared_ptr<OSService> os_service,
                                      const DecryptedSecurefsParams& params,
                                      const MountOptions& mount_options)
 {
-    auto file_table = make_file_table(os_service, params, mount_options);
+    // The repository must not be read or initialized before it is locked.
     auto locker = std::make_shared<full_format::RepoLocker>(
         os_service, StrongType<bool, tReadOnly>(mount_options.read_only()));
+    auto file_table = make_file_table(os_service, params, mount_options);
     OwnerOverride owner_override{};
     if (mount_options.has_uid_override())
     {
-- 
2.43.0


From 93148da345eec73295612055a661358b26a38867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:02 +0000
Subject: [PATCH 38/49] fix: a lock file removed by its holder just before
 exiting could be taken over

---
 sources/full_format.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index d50e784..bd1d90c 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -766,15 +766,18 @@ void RepoLocker::check_lock_file()
         // Other processes may have opened the same file at the same time, so only one of them at a
         // time may look at the recorded process and replace it.
         LockGuard<FileStream> lg(*stream, true);
+        pid_t holder{};
+        bool is_held = absl::SimpleAtoi(stream->as_string(), &holder)
+            && OSService::is_process_running(holder);
+        // Only look after the recorded process is known to be gone, since until then it may still
+        // remove the file.
         fuse_stat st{};
         stream->fstat(&st);
         if (st.st_nlink == 0)
         {
             continue;    // Removed by its holder in the meantime.
         }
-        pid_t holder{};
-        if (absl::SimpleAtoi(stream->as_string(), &holder)
-            && OSService::is_process_running(holder))
+        if (is_held)
         {
             throwVFSException(EEXIST);
         }
-- 
2.43.0


From 4726f3092bc6df88615a058c04e74f830bfaf4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:19 +0000
Subject: [PATCH 39/49] fix: an interrupted first mount left a broken root, and
 a read-only one created it

---
 sources/file_table_v2.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index bc33cef..0d4600f 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -31,11 +31,17 @@ void FileTable::init()
         pair = io_->create(kRootId);
         newly = true;
     }
+    if (!newly && pair.first->size() == 0 && pair.second->size() == 0)
+    {
+        // A previous process exited after creating the files but before writing anything to them.
+        newly = true;
+    }
     root_ = directory_factory_(pair.first, pair.second, kRootId);
     if (newly)
     {
         LockGuard<FileBase> lg(*root_);
         root_->initialize_empty(0755 | S_IFDIR, OSService::getuid(), OSService::getgid());
+        root_->flush();
     }
 }
 FilePtrHolder FileTable::create_holder(FileBase* fb)
@@ -283,6 +289,10 @@ namespace
 
         FileStreamPtrPair create(const id_type& id) override
         {
+            if (m_readonly)
+            {
+                throwVFSException(EROFS);
+            }
             std::string first_level_dir, second_level_dir, filename, metaname;
             calculate_paths(id, first_level_dir, second_level_dir, filename, metaname);
             auto data = create_in_shared_directory(
@@ -343,6 +353,10 @@ namespace
 
         FileStreamPtrPair create(const id_type& id) override
         {
+            if (m_readonly)
+            {
+                throwVFSException(EROFS);
+            }
             std::string dir, filename, metaname;
             calculate_paths(id, dir, filename, metaname);
             auto data = create_in_shared_directory(
-- 
2.43.0


From 2c2a816067ff4a6ad5d9e77ad19409f63de7d8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:50 +0000
Subject: [PATCH 40/49] fix: a timer moved to an earlier and then to a later
 time could fire much too late

---
 sources/resettable_timer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/resettable_timer.cpp b/sources/resettable_timer.cpp
index 6ca9c91..b5666fe 100644
--- a/sources/resettable_timer.cpp
+++ b/sources/resettable_timer.cpp
@@ -23,8 +23,8 @@ void ResettableTimer::setTimePoint(absl::Time trigger_time)
 {
     absl::MutexLock ml(&mu_);
     // If the new time point is in the future, then we can just let the work thread wake up
-    // naturally.
-    should_wake_up_ = trigger_time < this->trigger_time_;
+    // naturally. A wake up requested before but not yet noticed by the work thread stays requested.
+    should_wake_up_ = should_wake_up_ || trigger_time < this->trigger_time_;
     this->trigger_time_ = trigger_time;
 
     if (!work_thread_.joinable())
-- 
2.43.0


From da6af6bd09337811190b865dd5ab311350600500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:38 +0000
Subject: [PATCH 41/49] fix: an activity could move the idle deadline back to
 before another activity

---
 sources/fuse_hook.cpp | 6 +++++-
 sources/fuse_hook.h   | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/sources/fuse_hook.cpp b/sources/fuse_hook.cpp
index f09aba8..45245ca 100644
--- a/sources/fuse_hook.cpp
+++ b/sources/fuse_hook.cpp
@@ -18,5 +18,9 @@ IdleShutdownHook::IdleShutdownHook(absl::Duration timeout)
     notify_activity();
 }
 
-void IdleShutdownHook::notify_activity() { timer_.setTimePoint(absl::Now() + timeout_); }
+void IdleShutdownHook::notify_activity()
+{
+    absl::MutexLock lock(&mu_);
+    timer_.setTimePoint(absl::Now() + timeout_);
+}
 }    // namespace securefs
diff --git a/sources/fuse_hook.h b/sources/fuse_hook.h
index 7a058fe..650bdc9 100644
--- a/sources/fuse_hook.h
+++ b/sources/fuse_hook.h
@@ -27,8 +27,9 @@ public:
     void notify_activity() override;
 
 private:
+    absl::Mutex mu_;    // Held so that deadlines are set in the order the clock is read.
     absl::Duration timeout_;
-    ResettableTimer timer_;
+    ResettableTimer timer_ ABSL_GUARDED_BY(mu_);
 };
 
 class MultiFuseHook final : public FuseHook
-- 
2.43.0


From 88a2d0fef0e7a710bcec652760c57d67b4b1edd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:48 +0000
Subject: [PATCH 42/49] fix: listing extended attributes while one is added
 could fail with ERANGE

---
 sources/xattr_name.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sources/xattr_name.cpp b/sources/xattr_name.cpp
index 435b07a..0935c21 100644
--- a/sources/xattr_name.cpp
+++ b/sources/xattr_name.cpp
@@ -47,13 +47,18 @@ int wrapped_listxattr(absl::FunctionRef<int(char*, size_t)> underlying_listxattr
                       char* buffer,
                       size_t size)
 {
-    int rc = underlying_listxattr(nullptr, 0);
-    if (rc <= 0)
+    int rc;
+    std::vector<char> encrypted_name_buffer;
+    do
     {
-        return rc;
-    }
-    std::vector<char> encrypted_name_buffer(static_cast<size_t>(rc), 0);
-    rc = underlying_listxattr(encrypted_name_buffer.data(), encrypted_name_buffer.size());
+        rc = underlying_listxattr(nullptr, 0);
+        if (rc <= 0)
+        {
+            return rc;
+        }
+        encrypted_name_buffer.assign(static_cast<size_t>(rc), 0);
+        rc = underlying_listxattr(encrypted_name_buffer.data(), encrypted_name_buffer.size());
+    } while (rc == -ERANGE);    // Another attribute was added in between.
     if (rc <= 0)
     {
         return rc;
-- 
2.43.0


From e20b149da2ec360efcfedb38f290a717d6079647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:48 +0000
Subject: [PATCH 43/49] fix: a new symbolic link could be seen without its
 target

---
 sources/full_format.cpp | 18 +++++++++++++-----
 sources/full_format.h   |  7 ++++++-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index bd1d90c..36dbabe 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -290,9 +290,7 @@ int FuseHighLevelOps::vsymlink(const char* to, const char* from, const fuse_cont
         ERROR_LOG("Symlink target %s is absolute and therefore not supported", to);
         return -EINVAL;
     }
-    auto holder = create(from, 0644, Symlink::class_type(), ctx->uid, ctx->gid);
-    FileLockGuard fg(*holder);
-    holder->cast_as<Symlink>()->set(to);
+    create(from, 0644, Symlink::class_type(), ctx->uid, ctx->gid, to);
     return 0;
 };
 int FuseHighLevelOps::vlink(const char* src, const char* dest, const fuse_context* ctx)
@@ -672,8 +670,12 @@ FuseHighLevelOps::OpenBaseResult FuseHighLevelOps::open_base(absl::string_view p
     }
     return {std::move(*generic_open_result), splits.back()};
 }
-FilePtrHolder
-FuseHighLevelOps::create(absl::string_view path, unsigned mode, int type, int uid, int gid)
+FilePtrHolder FuseHighLevelOps::create(absl::string_view path,
+                                       unsigned mode,
+                                       int type,
+                                       int uid,
+                                       int gid,
+                                       const char* symlink_target)
 {
     auto [base_dir, last_component] = open_base(path);
     auto holder = ft_->create_as(type);
@@ -684,6 +686,12 @@ FuseHighLevelOps::create(absl::string_view path, unsigned mode, int type, int ui
     bool success = false;
     try
     {
+        if (symlink_target)
+        {
+            // It has to be complete before anyone can find it.
+            FileLockGuard lg(*holder);
+            holder->cast_as<Symlink>()->set(symlink_target);
+        }
         FileLockGuard lg(*base_dir);
         success = base_dir->cast_as<Directory>()->add_entry(last_component, holder->get_id(), type);
     }
diff --git a/sources/full_format.h b/sources/full_format.h
index 1071e8e..31a8c85 100644
--- a/sources/full_format.h
+++ b/sources/full_format.h
@@ -169,7 +169,12 @@ private:
                                               int recursion_depth = 0);
 
     OpenBaseResult open_base(absl::string_view path);
-    FilePtrHolder create(absl::string_view path, unsigned mode, int type, int uid, int gid);
+    FilePtrHolder create(absl::string_view path,
+                         unsigned mode,
+                         int type,
+                         int uid,
+                         int gid,
+                         const char* symlink_target = nullptr);
     std::optional<FilePtrHolder> open_all(absl::string_view path,
                                           bool resolve_last_symlink = false);
 
-- 
2.43.0


From f0954f8536a51cbafe534b50feaa75dfeaecf4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:56 +0000
Subject: [PATCH 44/49] fix: looking up or removing a name while it is replaced
 could report it missing

---
 sources/full_format.cpp | 100 ++++++++++++++++++++++++----------------
 sources/full_format.h   |   1 +
 2 files changed, 61 insertions(+), 40 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 36dbabe..0c26e63 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -15,6 +15,7 @@
 #include <cerrno>
 #include <cstdint>
 #include <cstdlib>
+#include <exception>
 #include <string>
 
 #if __has_include(<sys/xattr.h>)
@@ -228,32 +229,30 @@ int FuseHighLevelOps::vmkdir(const char* path, fuse_mode_t mode, const fuse_cont
 int FuseHighLevelOps::vrmdir(const char* path, const fuse_context* ctx)
 {
     auto [dirholder, last_component] = open_base(path);
-    id_type id;
-    int type;
-
+    while (true)
     {
-        FileLockGuard lg(*dirholder);
-        if (!dirholder->cast_as<Directory>()->get_entry(last_component, id, type))
+        auto opened = open_entry(*dirholder, last_component);
+        if (!opened)
         {
             return -ENOENT;
         }
+        auto& fp = *opened;
+        DoubleFileLockGuard lg(*dirholder, *fp);
+        id_type id;
+        int type;
+        if (!dirholder->cast_as<Directory>()->get_entry(last_component, id, type)
+            || id != fp->get_id())
+        {
+            continue;    // Removed or replaced by another thread in between.
+        }
+        // The entry must go only after the directory is known to be empty.
+        fp->cast_as<Directory>()->iterate_over_entries(
+            [](const std::string& name, const id_type& id, int type) -> bool
+            { throwVFSException(ENOTEMPTY); });
+        dirholder->cast_as<Directory>()->remove_entry(last_component, id, type);
+        fp->unlink();
+        return 0;
     }
-
-    auto fp = ft_->open_as(id, type);
-    DoubleFileLockGuard lg(*dirholder, *fp);
-    // The entry must go only after the directory is known to be empty.
-    fp->cast_as<Directory>()->iterate_over_entries(
-        [](const std::string& name, const id_type& id, int type) -> bool
-        { throwVFSException(ENOTEMPTY); });
-    id_type current_id;
-    if (!dirholder->cast_as<Directory>()->get_entry(last_component, current_id, type)
-        || current_id != id)
-    {
-        return -ENOENT;    // Removed or replaced by another thread in between.
-    }
-    dirholder->cast_as<Directory>()->remove_entry(last_component, id, type);
-    fp->unlink();
-    return 0;
 };
 int FuseHighLevelOps::vchmod(const char* path, fuse_mode_t mode, const fuse_context* ctx)
 {
@@ -593,6 +592,38 @@ int FuseHighLevelOps::vgetpath(
     return copy_and_return(result);
 };
 
+std::optional<FilePtrHolder> FuseHighLevelOps::open_entry(FileBase& dir, std::string_view name)
+{
+    id_type failed_id{};
+    std::exception_ptr failure;
+    while (true)
+    {
+        id_type id;
+        int type;
+        {
+            FileLockGuard lg(dir);
+            if (!dir.cast_as<Directory>()->get_entry(name, id, type))
+            {
+                return {};
+            }
+        }
+        if (failure && id == failed_id)
+        {
+            std::rethrow_exception(failure);
+        }
+        try
+        {
+            return ft_->open_as(id, type);
+        }
+        catch (const ExceptionBase&)
+        {
+            // Another thread may have removed or replaced the entry in between.
+            failed_id = id;
+            failure = std::current_exception();
+        }
+    }
+}
+
 std::optional<FilePtrHolder>
 FuseHighLevelOps::generic_open(id_type parent_id,
                                FilePtrHolder parent,
@@ -615,19 +646,15 @@ FuseHighLevelOps::generic_open(id_type parent_id,
             parent = ft_->open_as(parent_id, Directory::class_type());
             continue;
         }
-        id_type id;
-        int type;
+        auto opened = open_entry(*parent, splits[i]);
+        if (!opened)
         {
-            FileLockGuard lg(*parent);
-            if (!parent->cast_as<Directory>()->get_entry(splits[i], id, type))
-            {
-                return {};
-            }
+            return {};
         }
-        auto child = ft_->open_as(id, type);
+        auto child = std::move(*opened);
         child->set_parent_id(parent_id);
 
-        if (type == Symlink::class_type())
+        if (child->type() == Symlink::class_type())
         {
             std::string target;
             {
@@ -718,19 +745,12 @@ std::optional<FilePtrHolder> FuseHighLevelOps::open_all(absl::string_view path,
         return ft_->open_as(kRootId, Directory::class_type());
     }
     auto [base_dir, last_component] = open_base(path);
-    bool success = false;
-    id_type id;
-    int type;
-
-    {
-        FileLockGuard lg(*base_dir);
-        success = base_dir->cast_as<Directory>()->get_entry(last_component, id, type).has_value();
-    }
-    if (!success)
+    auto opened = open_entry(*base_dir, last_component);
+    if (!opened)
     {
         return {};
     }
-    auto holder = ft_->open_as(id, type);
+    auto holder = std::move(*opened);
     holder->set_parent_id(base_dir->get_id());
     if (resolve_last_symlink && holder->type() == Symlink::class_type())
     {
diff --git a/sources/full_format.h b/sources/full_format.h
index 31a8c85..3e18676 100644
--- a/sources/full_format.h
+++ b/sources/full_format.h
@@ -163,6 +163,7 @@ private:
         std::string_view last_component;
     };
 
+    std::optional<FilePtrHolder> open_entry(FileBase& dir, std::string_view name);
     std::optional<FilePtrHolder> generic_open(id_type parent_id,
                                               FilePtrHolder holder,
                                               absl::Span<const std::string_view> path,
-- 
2.43.0


From 4dba60bceda0ead4fe21162347be34f874895d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:35 +0000
Subject: [PATCH 45/49] fix: a shortened stored link target made the lite
 format read beyond its buffer

---
 sources/lite_format.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index d6ccd5e..b2d0743 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -305,6 +305,8 @@ namespace
                         base32_decode(slice, slice_size, decoded_part);
                         if (decoded_part.size() >= sizeof(string_buffer))
                             throwVFSException(ENAMETOOLONG);
+                        if (decoded_part.size() <= kSIVSize)
+                            throw InvalidFilenameException(std::string(path));
 
                         bool success = decryptor.decrypt_and_verify(&decoded_part[kSIVSize],
                                                                     decoded_part.size() - kSIVSize,
-- 
2.43.0


From 4ab079d6b25aadcf9bb5a737d631b39e3107f330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:35 +0000
Subject: [PATCH 46/49] fix: a shortened stored link target was shown as an
 empty target

---
 sources/lite_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index b2d0743..ba14d04 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -496,7 +496,7 @@ namespace
             base32_decode(tmp.data(), tmp.size(), decoded);
             if (decoded.size() <= kSIVSize)
             {
-                return {};
+                throw InvalidFilenameException(std::string(path));
             }
             tmp.resize(decoded.size() - kSIVSize);
             if (!get_siv().decrypt_and_verify(decoded.data() + kSIVSize,
-- 
2.43.0


From 3bd006bcb8ffb8e6541889c7845576d7f42c95b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:48 +0000
Subject: [PATCH 47/49] fix: an object of the full format whose metadata file
 was emptied was shown with made-up attributes

---
 sources/file_table_v2.cpp | 11 ++++++++++-
 sources/full_format.cpp   |  7 +++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index 0d4600f..d94c767 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -31,8 +31,12 @@ void FileTable::init()
         pair = io_->create(kRootId);
         newly = true;
     }
-    if (!newly && pair.first->size() == 0 && pair.second->size() == 0)
+    if (!newly && pair.second->size() == 0)
     {
+        if (pair.first->size() != 0)
+        {
+            throw CorruptedMetaDataException(kRootId, "empty");
+        }
         // A previous process exited after creating the files but before writing anything to them.
         newly = true;
     }
@@ -83,6 +87,11 @@ FilePtrHolder FileTable::open_as(const id_type& id, int type)
         return holder;
     }
     auto [data, meta] = io_->open(id);
+    if (meta->size() == 0)
+    {
+        // Every object has its header written before it is linked into the tree.
+        throw CorruptedMetaDataException(id, "empty");
+    }
     auto unique_base = construct(type, std::move(data), std::move(meta), id);
     auto holder = create_holder(unique_base);
     s.live_map.emplace(id, std::move(unique_base));
diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 0c26e63..2c8265b 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -713,11 +713,14 @@ FilePtrHolder FuseHighLevelOps::create(absl::string_view path,
     bool success = false;
     try
     {
-        if (symlink_target)
         {
             // It has to be complete before anyone can find it.
             FileLockGuard lg(*holder);
-            holder->cast_as<Symlink>()->set(symlink_target);
+            if (symlink_target)
+            {
+                holder->cast_as<Symlink>()->set(symlink_target);
+            }
+            holder->flush();
         }
         FileLockGuard lg(*base_dir);
         success = base_dir->cast_as<Directory>()->add_entry(last_component, holder->get_id(), type);
-- 
2.43.0


From f15e60cd450edc2d375567bfacfcb49fed9bc289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:24 +0000
Subject: [PATCH 48/49] fix: a symbolic link of the full format whose content
 was emptied was shown with an empty target

---
 sources/files.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/files.h b/sources/files.h
index d1c4a39..4e2d5bb 100644
--- a/sources/files.h
+++ b/sources/files.h
@@ -415,6 +415,11 @@ public:
         std::string result(m_stream->size(), 0);
         auto rc = m_stream->read(&result[0], 0, result.size());
         result.resize(rc);
+        if (result.empty())
+        {
+            // No link is ever created without a target.
+            throw CorruptedMetaDataException(get_id(), "symbolic link without target");
+        }
         update_atime_helper();
         return result;
     }
-- 
2.43.0


From d2108abe30ad835e1bcbf3f66992c9102cf2edfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:41 +0000
Subject: [PATCH 49/49] fix: apply --uid-override and --gid-override to the
 lite format

The documentation says that they force every file to be owned by the given
user and group, but the lite format ignored them.
---
 sources/internal_mount.cpp | 33 ++++++++++++++++++++++-----------
 sources/lite_format.cpp    | 15 +++++++++++++++
 sources/lite_format.h      | 12 +++++++++---
 3 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/sources/internal_mount.cpp b/sources/internal_mount.cpp
index d16f89f..b987036 100644
--- a/sources/internal_mount.cpp
+++ b/sources/internal_mount.cpp
@@ -176,6 +176,20 @@ namespace
         }
     }
 
+    OwnerOverride make_owner_override(const MountOptions& mount_options)
+    {
+        OwnerOverride owner_override{};
+        if (mount_options.has_uid_override())
+        {
+            owner_override.uid_override = mount_options.uid_override();
+        }
+        if (mount_options.has_gid_override())
+        {
+            owner_override.gid_override = mount_options.gid_override();
+        }
+        return owner_override;
+    }
+
 }    // namespace
 
 std::shared_ptr<full_format::FuseHighLevelOps>
@@ -187,20 +201,11 @@ make_full_format_fuse_high_level_ops(std::shared_ptr<OSService> os_service,
     auto locker = std::make_shared<full_format::RepoLocker>(
         os_service, StrongType<bool, tReadOnly>(mount_options.read_only()));
     auto file_table = make_file_table(os_service, params, mount_options);
-    OwnerOverride owner_override{};
-    if (mount_options.has_uid_override())
-    {
-        owner_override.uid_override = mount_options.uid_override();
-    }
-    if (mount_options.has_gid_override())
-    {
-        owner_override.gid_override = mount_options.gid_override();
-    }
     return std::make_shared<full_format::FuseHighLevelOps>(
         std::move(os_service),
         std::move(file_table),
         std::move(locker),
-        owner_override,
+        make_owner_override(mount_options),
         StrongType<bool, tCaseInsensitive>(params.full_format_params().case_insensitive()),
         StrongType<bool, tEnableXattr>(mount_options.enable_xattr()));
 }
@@ -249,7 +254,13 @@ make_lite_format_fuse_high_level_ops(std::shared_ptr<OSService> os_service,
 
     // Construct and return FuseHighLevelOps
     return std::make_shared<lite_format::FuseHighLevelOps>(
-        os_service, opener, name_trans, xattr, xattr_master_key, enable_xattr);
+        os_service,
+        opener,
+        name_trans,
+        xattr,
+        xattr_master_key,
+        enable_xattr,
+        make_owner_override(mount_options));
 }
 
 std::shared_ptr<FuseHighLevelOpsBase>
diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index ba14d04..07f249e 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -855,11 +855,24 @@ int FuseHighLevelOps::vstatfs(const char* path, fuse_statvfs* buf, const fuse_co
     buf->f_namemax = name_trans_->max_virtual_path_component_size(buf->f_namemax);
     return 0;
 }
+void FuseHighLevelOps::postprocess_stat(fuse_stat* st)
+{
+    if (owner_override_.uid_override.has_value())
+    {
+        st->st_uid = *owner_override_.uid_override;
+    }
+    if (owner_override_.gid_override.has_value())
+    {
+        st->st_gid = *owner_override_.gid_override;
+    }
+}
+
 int FuseHighLevelOps::vgetattr(const char* path, fuse_stat* buf, const fuse_context* ctx)
 {
     auto enc_path = name_trans_->encrypt_full_path(path, nullptr);
     if (!root_->stat(enc_path, buf))
         return -ENOENT;
+    postprocess_stat(buf);
     if (buf->st_size <= 0)
         return 0;
     switch (buf->st_mode & S_IFMT)
@@ -932,6 +945,7 @@ int FuseHighLevelOps::vfgetattr(const char* path,
     auto fp = get_base(info);
     LockGuard<Base> lg(*fp);
     fp->fstat(st);
+    postprocess_stat(st);
     return 0;
 }
 int FuseHighLevelOps::vopendir(const char* path, fuse_file_info* info, const fuse_context* ctx)
@@ -965,6 +979,7 @@ int FuseHighLevelOps::vreaddir(const char* path,
 
     while (dir->next(&name, &st))
     {
+        postprocess_stat(&st);
         int rc = filler(buf, name.c_str(), &st, 0);
         if (rc != 0)
         {
diff --git a/sources/lite_format.h b/sources/lite_format.h
index 408d01f..4715aad 100644
--- a/sources/lite_format.h
+++ b/sources/lite_format.h
@@ -298,12 +298,14 @@ private:
                      std::shared_ptr<NameTranslator> name_trans,
                      std::shared_ptr<XattrCryptor> xattr,
                      const key_type& xattr_key,
-                     bool enable_xattr)
+                     bool enable_xattr,
+                     OwnerOverride owner_override)
         : root_(std::move(root))
         , opener_(std::move(opener))
         , name_trans_(std::move(name_trans))
         , xattr_(std::move(xattr))
         , enable_xattr_(enable_xattr)
+        , owner_override_(owner_override)
         , xattr_name_cryptor_(
               [xattr_key]()
               { return std::make_unique<AES_SIV>(xattr_key.data(), xattr_key.size()); })
@@ -317,13 +319,15 @@ public:
                      std::shared_ptr<NameTranslator> name_trans,
                      std::shared_ptr<XattrCryptor> xattr,
                      const StrongType<key_type, tXattrMasterKey>& xattr_key,
-                     StrongType<bool, tEnableXattr> enable_xattr)
+                     StrongType<bool, tEnableXattr> enable_xattr,
+                     OwnerOverride owner_override)
         : FuseHighLevelOps(std::move(root),
                            std::move(opener),
                            std::move(name_trans),
                            std::move(xattr),
                            xattr_key.get(),
-                           enable_xattr.get())
+                           enable_xattr.get(),
+                           owner_override)
     {
     }
 
@@ -412,9 +416,11 @@ private:
     std::shared_ptr<XattrCryptor> xattr_;
     ThreadLocal<AES_SIV> xattr_name_cryptor_;
     bool enable_xattr_;
+    OwnerOverride owner_override_;
     bool read_dir_plus_ = false;
 
 private:
+    void postprocess_stat(fuse_stat* st);
     std::unique_ptr<File> open(std::string_view path, int flags, unsigned mode);
 
     enum class LongNameComponentAction : unsigned char
-- 
2.43.0

