From 18d294a74d744f1d722304c5bd1d7d2b68373e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 01/45] fix: history lines could get merged or silently dropped
 when a write is interrupted

write_lock::add() wrote the line and its line ending separately and ignored
write errors.  A process terminated in between left a line without line ending,
which merged with the next added line (by any session sharing the file), and
history_db::add() returned true even when nothing could be written.
---
 clink/lib/src/history_db.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 85a3e9c..7fd986d 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -780,12 +780,26 @@ void write_lock::clear()
 //------------------------------------------------------------------------------
 line_id_impl write_lock::add(const char* line)
 {
-    DWORD written;
     const DWORD offset = SetFilePointer(m_handle_lines, 0, nullptr, FILE_END);
     if (offset == INVALID_SET_FILE_POINTER)
         return line_id_impl();
-    WriteFile(m_handle_lines, line, int32(strlen(line)), &written, nullptr);
-    WriteFile(m_handle_lines, "\n", 1, &written, nullptr);
+
+    // Write the line and its line ending together.  If they were written
+    // separately and the process were terminated in between, then the next line
+    // to be added would get merged into this one.
+    str<> tmp;
+    tmp << line << "\n";
+
+    DWORD written = 0;
+    if (!WriteFile(m_handle_lines, tmp.c_str(), tmp.length(), &written, nullptr) || written != tmp.length())
+    {
+        // Don't leave a partial line behind.
+        LOG("can't add history line; error %u", GetLastError());
+        SetFilePointer(m_handle_lines, offset, nullptr, FILE_BEGIN);
+        SetEndOfFile(m_handle_lines);
+        return line_id_impl();
+    }
+
     if (offset >= c_max_line_id.offset)
         return c_max_line_id;
     return line_id_impl(offset);
@@ -1801,11 +1815,11 @@ bool history_db::add(const char* line, time_t* out_timestamp)
         if (out_timestamp)
             *out_timestamp = now;
         timestamp.format("|\ttime=%u", now);
-        lock.add(timestamp.c_str());
+        if (!lock.add(timestamp.c_str()))
+            return false;
     }
 
-    lock.add(line);
-    return true;
+    return !!lock.add(line);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From e5bec0eea799dece2d6fc7fce47c5b84b0851bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 02/45] fix: concurrently reaping a session duplicated its
 history lines

When two processes reap the same orphaned session at the same time, each of them
appended the session's lines to the master history, because neither can delete
the files while the other one has them open.  Empty the files while they are
still locked.
---
 clink/lib/src/history_db.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 7fd986d..d51be4f 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1285,11 +1285,18 @@ void history_db::reap()
                 bank_handles master_handles = get_bank(bank_master);
                 master_handles.m_handle_removals = nullptr; // Don't redirect removals.
                 write_lock dest(master_handles);
-                read_lock src(reap_handles);
+                write_lock src(reap_handles);
                 if (src && dest)
                 {
                     dest.append(src);
                     src.apply_removals(dest);
+
+                    // Empty the session files while they're still locked.  The
+                    // session files can't be deleted while some other process
+                    // has them open, e.g. because it's concurrently reaping the
+                    // same session files, and then the same lines must not get
+                    // appended a second time.
+                    src.clear();
                 }
             }
 
-- 
2.43.0


From 83f9c89331dc03a50bb2ddc107406c888b72fb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:34 +0000
Subject: [PATCH 03/45] fix: history deletions could be lost or hit the wrong
 lines after another session compacts or clears

Deferred removals are only applied if the removals file's concurrency tag
matches the master history's.  The tag was read before the removals file was
written, without holding the lock, and was not refreshed when another session
cleared the master history, so later deletions were silently lost.  And an
existing removals file got its tag overwritten without discarding its (stale)
offsets, so that they got applied to unrelated lines.
---
 clink/lib/src/history_db.cpp | 73 ++++++++++++++++++++++++++----------
 1 file changed, 54 insertions(+), 19 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index d51be4f..c12ce53 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -156,20 +156,6 @@ static void* open_file(const char* path, DWORD& err, bool if_exists=false)
     return handle;
 }
 
-//------------------------------------------------------------------------------
-static void* make_removals_file(const char* path, const char* ctag)
-{
-    void* handle = open_file(path);
-    if (handle)
-    {
-        DWORD written;
-        DWORD len = DWORD(strlen(ctag));
-        WriteFile(handle, ctag, len, &written, nullptr);
-        WriteFile(handle, "\n", 1, &written, nullptr);
-    }
-    return handle;
-}
-
 
 
 //------------------------------------------------------------------------------
@@ -393,6 +379,39 @@ static bool extract_ctag(const read_lock& lock, concurrency_tag& tag);
 
 
 
+//------------------------------------------------------------------------------
+// The removals file lists offsets in the master bank, and starts with the ctag
+// of the master bank.  Offsets for any other ctag are meaningless; discard them.
+// WARNING: Only call this while holding an exclusive lock on the master bank!
+static void sync_removals_file(void* handle, const char* ctag)
+{
+    char buffer[max_ctag_size];
+    concurrency_tag tag;
+    read_lock::file_iter iter(handle, buffer);
+    if (extract_ctag(iter, buffer, sizeof(buffer), tag) && strcmp(tag.get(), ctag) == 0)
+        return;
+
+    str<64> line;
+    line << ctag << "\n";
+
+    DWORD written;
+    SetFilePointer(handle, 0, nullptr, FILE_BEGIN);
+    SetEndOfFile(handle);
+    WriteFile(handle, line.c_str(), line.length(), &written, nullptr);
+}
+
+//------------------------------------------------------------------------------
+// WARNING: Only call this while holding an exclusive lock on the master bank!
+static void* make_removals_file(const char* path, const char* ctag)
+{
+    void* handle = open_file(path);
+    if (handle)
+        sync_removals_file(handle, ctag);
+    return handle;
+}
+
+
+
 //------------------------------------------------------------------------------
 read_lock::read_lock(const bank_handles& handles, bool exclusive)
 : bank_lock(handles, exclusive)
@@ -817,6 +836,16 @@ bool write_lock::remove(line_id_impl id)
 
     if (m_handle_removals && id.bank_index == bank_master)
     {
+        // The master bank may have been cleared or compacted by another session
+        // since the removals file was created.
+        concurrency_tag tag;
+        if (!extract_ctag(*this, tag))
+        {
+            LOG("can't remove history line; no ctag");
+            return false;
+        }
+        sync_removals_file(m_handle_removals, tag.get());
+
         str<> s;
         s.format("%d\n", id.offset);
 
@@ -1377,7 +1406,15 @@ void history_db::initialise(str_base* error_message)
         removals << path << ".removals";
         DIAG("... removals file '%s'\n", removals.c_str());
 
-        m_bank_handles[bank_session].m_handle_removals = make_removals_file(removals.c_str(), m_master_ctag.get());
+        // Lock the master bank, so that no other session can clear or compact it
+        // in between getting its ctag and writing the ctag in the removals file.
+        write_lock lock(get_bank(bank_master));
+        if (lock)
+        {
+            m_master_ctag.clear();
+            extract_ctag(lock, m_master_ctag);
+            m_bank_handles[bank_session].m_handle_removals = make_removals_file(removals.c_str(), m_master_ctag.get());
+        }
     }
 
     reap(); // collects orphaned history files.
@@ -1755,10 +1792,8 @@ bool history_db::compact(bool force, bool uniq, int32 _limit)
     {
         assert(os::get_path_type(r.m_file.c_str()) == os::path_type_file);
         void* handle = make_removals_file(r.m_file.c_str(), m_master_ctag.get());
-
-        // Truncate file immedately after the ctag to keep the file in a
-        // consistent state even while being rewritten.
-        SetEndOfFile(handle);
+        if (!handle)
+            continue;
 
         // Look up the ids and write the new ids for ones that were kept.
         for (const auto& id : r.m_lines)
-- 
2.43.0


From e02a61282f7d03145272f065c52ff7364f12d96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:34 +0000
Subject: [PATCH 04/45] fix: deleting a history line could delete another line
 when history.max_lines is exceeded

Loading history removes the oldest lines that exceed the limit, but did not
reload the Readline history list, so its indices and the line ids disagreed.
---
 clink/lib/src/history_db.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index c12ce53..95397fd 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1605,7 +1605,11 @@ void history_db::load_rl_history(bool can_clean)
     // history file.
     if (can_clean && m_use_master_bank)
     {
-        if (compact())
+        // Reload even if compact() only removed lines that exceed the limit;
+        // otherwise indices in the Readline history list don't match the
+        // m_index_map anymore, and deleting a line deletes some other line.
+        const size_t loaded = m_index_map.size();
+        if (compact() || m_index_map.size() != loaded)
             load_internal();
     }
 
-- 
2.43.0


From 021f339dbd87af89b66ac3c4937d0b401a6af1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 05/45] fix: history lines could be lost on I/O errors

---
 clink/lib/src/history_db.cpp | 88 ++++++++++++++++++++++++++++++------
 1 file changed, 73 insertions(+), 15 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 95397fd..b37a27b 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -254,9 +254,20 @@ bank_lock::bank_lock(const bank_handles& handles, bool exclusive)
 
     OVERLAPPED overlapped = {};
     int32 flags = exclusive ? LOCKFILE_EXCLUSIVE_LOCK : 0;
-    LockFileEx(m_handle_lines, flags, 0, ~0u, ~0u, &overlapped);
-    if (m_handle_removals)
-        LockFileEx(m_handle_removals, flags, 0, ~0u, ~0u, &overlapped);
+    if (!LockFileEx(m_handle_lines, flags, 0, ~0u, ~0u, &overlapped))
+    {
+        LOG("can't lock history file; error %u", GetLastError());
+        m_handle_lines = nullptr;
+        m_handle_removals = nullptr;
+        return;
+    }
+    if (m_handle_removals && !LockFileEx(m_handle_removals, flags, 0, ~0u, ~0u, &overlapped))
+    {
+        LOG("can't lock history removals file; error %u", GetLastError());
+        UnlockFileEx(m_handle_lines, 0, ~0u, ~0u, &overlapped);
+        m_handle_lines = nullptr;
+        m_handle_removals = nullptr;
+    }
 }
 
 //------------------------------------------------------------------------------
@@ -316,6 +327,7 @@ public:
         char*               get_buffer() const          { return m_buffer; }
         uint32              get_buffer_size() const     { return m_buffer_size; }
         uint32              get_remaining() const       { return m_remaining; }
+        bool                has_failed() const          { return m_failed; }
         void                set_file_offset(uint32 offset);
 
     private:
@@ -324,6 +336,7 @@ public:
         unsigned __int64    m_buffer_offset = 0;
         uint32              m_buffer_size = 0;
         uint32              m_remaining = 0;
+        bool                m_failed = false;
     };
 
     class line_iter : public no_copy
@@ -338,6 +351,7 @@ public:
         line_id_impl        next(str_iter& out, str_base* timestamp=nullptr, history_db::line_id* timestamp_id=nullptr);
         void                set_file_offset(uint32 offset);
         uint32              get_deleted_count() const { return m_deleted; }
+        bool                has_failed() const { return m_file_iter.has_failed(); }
 
     private:
         bool                provision();
@@ -370,7 +384,7 @@ public:
     void            clear();
     line_id_impl    add(const char* line);
     bool            remove(line_id_impl id);
-    void            append(const read_lock& src);
+    bool            append(const read_lock& src);
 };
 
 //------------------------------------------------------------------------------
@@ -606,7 +620,8 @@ uint32 read_lock::file_iter::next(uint32 rollback)
     int32 needed = min(m_remaining, m_buffer_size - rollback);
 
     DWORD read = 0;
-    ReadFile(m_handle, target, needed, &read, nullptr);
+    if (!ReadFile(m_handle, target, needed, &read, nullptr) || (needed && !read))
+        m_failed = true;
 
     m_remaining -= read;
     m_buffer_size = read + rollback;
@@ -864,16 +879,36 @@ bool write_lock::remove(line_id_impl id)
 }
 
 //------------------------------------------------------------------------------
-void write_lock::append(const read_lock& src)
+bool write_lock::append(const read_lock& src)
 {
     DWORD written;
 
-    SetFilePointer(m_handle_lines, 0, nullptr, FILE_END);
+    const DWORD offset = SetFilePointer(m_handle_lines, 0, nullptr, FILE_END);
+    if (offset == INVALID_SET_FILE_POINTER)
+        return false;
 
+    bool ok = true;
     history_read_buffer buffer;
     read_lock::file_iter src_iter(src, buffer.data(), buffer.size());
-    while (int32 bytes_read = src_iter.next())
-        WriteFile(m_handle_lines, buffer.data(), bytes_read, &written, nullptr);
+    while (uint32 bytes_read = src_iter.next())
+    {
+        if (!WriteFile(m_handle_lines, buffer.data(), bytes_read, &written, nullptr) || written != bytes_read)
+        {
+            ok = false;
+            break;
+        }
+    }
+
+    if (!ok || src_iter.has_failed())
+    {
+        // Don't leave partial content behind.
+        LOG("can't append history lines; error %u", GetLastError());
+        SetFilePointer(m_handle_lines, offset, nullptr, FILE_BEGIN);
+        SetEndOfFile(m_handle_lines);
+        return false;
+    }
+
+    return true;
 }
 
 
@@ -1013,7 +1048,7 @@ static bool extract_ctag(const read_lock& lock, concurrency_tag& tag)
 }
 
 //------------------------------------------------------------------------------
-static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=nullptr, size_t* _deleted=nullptr, bool uniq=false, size_t* _dups=nullptr, std::map<line_id_impl, line_id_impl>* remap=nullptr)
+static bool rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=nullptr, size_t* _deleted=nullptr, bool uniq=false, size_t* _dups=nullptr, std::map<line_id_impl, line_id_impl>* remap=nullptr)
 {
     history_read_buffer buffer;
     str_map_case<size_t>::type seen;
@@ -1081,6 +1116,13 @@ static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=
         assert(!keep.get());
     }
 
+    // If the lines couldn't be read, then don't throw any lines away.
+    if (iter.has_failed())
+    {
+        LOG("can't rewrite history file; error reading it");
+        return false;
+    }
+
     if (_kept)
         *_kept = lines_to_keep.size();
     if (_deleted)
@@ -1153,6 +1195,8 @@ static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=
             }
         }
     }
+
+    return true;
 }
 
 //------------------------------------------------------------------------------
@@ -1299,7 +1343,7 @@ void history_db::reap()
         {
             // Don't copy; only delete.
         }
-        else if (os::get_file_size(path.c_str()) > 0 ||
+        else if (os::get_file_size(path.c_str()) != 0 || // Including errors.
                  os::get_file_size(removals.c_str()) > 0)
         {
             bank_handles reap_handles;
@@ -1309,15 +1353,15 @@ void history_db::reap()
             if (reap_handles.m_handle_removals)
                 DIAG("... reap session file '%s'\n", removals.c_str());
 
+            bool reaped = false;
             {
                 // WARNING: ALWAYS LOCK MASTER BEFORE SESSION!
                 bank_handles master_handles = get_bank(bank_master);
                 master_handles.m_handle_removals = nullptr; // Don't redirect removals.
                 write_lock dest(master_handles);
                 write_lock src(reap_handles);
-                if (src && dest)
+                if (src && dest && dest.append(src))
                 {
-                    dest.append(src);
                     src.apply_removals(dest);
 
                     // Empty the session files while they're still locked.  The
@@ -1326,10 +1370,16 @@ void history_db::reap()
                     // same session files, and then the same lines must not get
                     // appended a second time.
                     src.clear();
+                    reaped = true;
                 }
             }
 
             reap_handles.close();
+
+            // If the session's lines couldn't be copied then keep them; they'll
+            // be reaped some other time.
+            if (!reaped)
+                return;
         }
 
         os::unlink(removals.c_str());
@@ -1720,7 +1770,11 @@ bool history_db::compact(bool force, bool uniq, int32 _limit)
     DIAG("... compact:  rewrite master bank\n");
 
     size_t kept, deleted, dups;
-    assert(!m_master_ctag.empty());
+    if (m_master_ctag.empty())
+    {
+        LOG("can't compact history; the master bank is not accessible");
+        return false;
+    }
 
     bank_handles master_handles = get_bank(bank_master);
     master_handles.m_handle_removals = nullptr; // Don't redirect removals.
@@ -1780,7 +1834,11 @@ bool history_db::compact(bool force, bool uniq, int32 _limit)
     // optionally enforce uniqueness.  The result counters are written to
     // the log file.
     std::map<line_id_impl, line_id_impl> remap_removals;
-    rewrite_master_bank(dest, limit, &kept, &deleted, uniq, &dups, &remap_removals);
+    if (!dest || !rewrite_master_bank(dest, limit, &kept, &deleted, uniq, &dups, &remap_removals))
+    {
+        DIAG("... compact:  unable to rewrite master bank\n");
+        return false;
+    }
 
     // Extract the new master concurrency tag.
     str<64> old_ctag(m_master_ctag.get());
-- 
2.43.0


From 9b6a76123d0bd8efe26931acdceaaab5cfd5ed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:49 +0000
Subject: [PATCH 06/45] fix: compacting history with both a limit and uniq
 could delete the whole history

---
 clink/lib/src/history_db.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index b37a27b..5bb92f4 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1138,8 +1138,8 @@ static bool rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=
     size_t start = 0;
     if (0 < limit && limit < lines_to_keep.size())
     {
-        for (start = lines_to_keep.size(); limit && start--;)
-            if (lines_to_keep[start].get())
+        for (start = lines_to_keep.size(); limit && start;)
+            if (lines_to_keep[--start].get())
                 --limit;
     }
 
-- 
2.43.0


From 427df91e3f9d2f82b197ce681e9c576d053192e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 07/45] fix: time stamp of a deleted history line could be
 shown for the next line

---
 clink/lib/src/history_db.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 5bb92f4..83b1e1f 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -773,6 +773,11 @@ line_id_impl read_lock::line_iter::next(str_iter& out, str_base* timestamp, hist
         {
             if (!eating_ctag)
                 ++m_deleted;
+            // The timestamp belongs to the skipped line, not to the next line.
+            if (timestamp)
+                timestamp->clear();
+            if (timestamp_id)
+                *timestamp_id = 0;
             continue;
         }
 
-- 
2.43.0


From bb1a6239387d9312f178e573700a32650a5e11e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:17 +0000
Subject: [PATCH 08/45] fix: history of old versions could be lost when
 sessions start concurrently or die while migrating it

---
 clink/lib/src/history_db.cpp | 66 +++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 19 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 83b1e1f..3d07f0e 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1205,36 +1205,24 @@ static bool rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=
 }
 
 //------------------------------------------------------------------------------
-static void migrate_history(const char* path, bool m_diagnostic)
+static bool copy_old_history(const char* old_file, const char* path)
 {
     bank_handles handles;
     handles.m_handle_lines = open_file(path);
     if (!handles)
-        return;
-
-    // First lock the history bank.
-    write_lock lock(handles);
+        return false;
 
-    // Then test if it's empty -- only migrate if it's empty.
-    DWORD high = 0;
-    DWORD low = GetFileSize(handles.m_handle_lines, &high);
-    if (!low && !high)
+    bool ok = false;
     {
-        // Build the old history file name.
-        str<> old_file;
-        path::get_directory(path, old_file);
-        path::append(old_file, ".history");
-        DIAG("... migrate from '%s'\n", old_file.c_str());
-
-        // Open the old history file and try to migrate.
-        FILE* old = fopen(old_file.c_str(), "r");
+        write_lock lock(handles);
+        FILE* old = lock ? fopen(old_file, "r") : nullptr;
         if (old)
         {
             // Clear and write new tag.
             concurrency_tag tag;
             tag.generate_new_tag();
             lock.clear();
-            lock.add(tag.get());
+            ok = !!lock.add(tag.get());
 
             // Copy old history.
             int32 buffer_size = 8192;
@@ -1249,14 +1237,54 @@ static void migrate_history(const char* path, bool m_diagnostic)
                         break;
                     buffer[len] = '\0';
                 }
-                lock.add(buffer);
+                ok = !!lock.add(buffer) && ok;
             }
+            ok = !ferror(old) && ok;
 
+            free(buffer);
             fclose(old);
         }
     }
 
     handles.close();
+    return ok;
+}
+
+//------------------------------------------------------------------------------
+static void migrate_history(const char* path, bool m_diagnostic)
+{
+    // Build the old history file name.
+    str<> old_file;
+    path::get_directory(path, old_file);
+    path::append(old_file, ".history");
+
+    wstr<> wold_file(old_file.c_str());
+    HANDLE old = CreateFileW(wold_file.c_str(), GENERIC_READ, FILE_SHARE_READ|FILE_SHARE_WRITE, nullptr, OPEN_EXISTING, 0, nullptr);
+    if (old == INVALID_HANDLE_VALUE)
+        return;
+
+    // Only one session may migrate, and the others must wait until it's done;
+    // otherwise they'd create the history file and nothing would get migrated.
+    // Lock a range past the end so that the file can still be read.
+    OVERLAPPED overlapped = {};
+    overlapped.OffsetHigh = 1;
+    if (LockFileEx(old, LOCKFILE_EXCLUSIVE_LOCK, 0, 1, 0, &overlapped))
+    {
+        // Copy into a temporary file, so that the history file is complete when
+        // it comes into existence.
+        if (os::get_path_type(path) == os::path_type_invalid)
+        {
+            DIAG("... migrate from '%s'\n", old_file.c_str());
+            str<> tmp;
+            tmp << path << ".migrate";
+            if (copy_old_history(old_file.c_str(), tmp.c_str()))
+                os::move(tmp.c_str(), path);
+            else
+                os::unlink(tmp.c_str());
+        }
+        UnlockFileEx(old, 0, 1, 0, &overlapped);
+    }
+    CloseHandle(old);
 }
 
 
-- 
2.43.0


From 7a09379f643ce51f7f8b31293d83e413a42c7c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:42 +0000
Subject: [PATCH 09/45] fix: an incomplete record of a deletion could delete
 another history line

---
 clink/lib/src/history_db.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 3d07f0e..ffed64c 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -869,9 +869,17 @@ bool write_lock::remove(line_id_impl id)
         str<> s;
         s.format("%d\n", id.offset);
 
-        DWORD written;
-        SetFilePointer(m_handle_removals, 0, nullptr, FILE_END);
-        WriteFile(m_handle_removals, s.c_str(), s.length(), &written, nullptr);
+        DWORD written = 0;
+        const DWORD offset = SetFilePointer(m_handle_removals, 0, nullptr, FILE_END);
+        if (!WriteFile(m_handle_removals, s.c_str(), s.length(), &written, nullptr) || written != s.length())
+        {
+            // Don't leave a partial offset behind; it would refer to some other
+            // line.
+            LOG("can't remove history line; error %u", GetLastError());
+            SetFilePointer(m_handle_removals, offset, nullptr, FILE_BEGIN);
+            SetEndOfFile(m_handle_removals);
+            return false;
+        }
     }
     else
     {
-- 
2.43.0


From 7c4a6018dc2e89862cceec0089d30d7a46194546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 10/45] fix: the default settings file was closed twice

---
 clink/core/src/settings.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index de6b095..2cd59a3 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -319,8 +319,6 @@ static bool parse_ini(FILE* in, std::vector<settings::setting_name_value>& out)
         custom_default.value = value;
         map.emplace(name, std::move(custom_default));
     });
-
-    fclose(in);
 }
 
 
-- 
2.43.0


From 618042e93ad40aca9d89b58ce54586e1b256cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 11/45] fix: settings.set could change other color settings of
 the session

---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 2cd59a3..8f38ad7 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -739,7 +739,7 @@ public:
         for (auto& i : get_map())
         {
             setting* iter = i.second;
-            iter->get(value);
+            iter->get_descriptive(value);
             m_restore.emplace(iter->get_name(), std::move(value));
         }
     }
-- 
2.43.0


From 68ea05c8ce2ef44b956e8dd62767b7dad20fba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 12/45] fix: settings.clear could crash or store an empty value

---
 clink/core/src/settings.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 8f38ad7..c30ca33 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -771,9 +771,15 @@ bool sandboxed_set_setting(const char* name, const char* value)
     rollback<loaded_settings_map*> rb_loaded(g_loaded_settings, &tmp_loaded_map);
 
     // Load settings.
-    return (load(file, default_file) &&
-            set_setting(name, value) &&
-            save(file));
+    if (!load(file, default_file))
+        return false;
+
+    if (!value)
+        clear_setting(name);
+    else if (!set_setting(name, value))
+        return false;
+
+    return save(file);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 44e452f7186257faad6c2f92a4171ae65fba272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 13/45] fix: themes could not change settings of scripts that
 are not loaded

---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index c30ca33..2a4c5ad 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -372,7 +372,7 @@ static bool set_setting(const char* name, const char* value, const char* comment
                 loaded.comment = l->second.comment.c_str();
         }
         loaded.value = value;
-        get_loaded_map().emplace(name, std::move(loaded));
+        get_loaded_map()[name] = std::move(loaded);
         return true;
     }
 
-- 
2.43.0


From 1ece8a11bca8d236c3106af293004eebd66d3ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 14/45] fix: settings could be lost if saving them was
 interrupted, failed, or overlapped with another process

---
 clink/core/include/core/os.h |  2 +-
 clink/core/src/os.cpp        |  5 ++--
 clink/core/src/settings.cpp  | 45 +++++++++++++++++++++++++++++++-----
 3 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/clink/core/include/core/os.h b/clink/core/include/core/os.h
index d84f67b..ffa405e 100644
--- a/clink/core/include/core/os.h
+++ b/clink/core/include/core/os.h
@@ -84,7 +84,7 @@ bool    set_current_dir(const char* dir);
 bool    make_dir(const char* dir);
 bool    remove_dir(const char* dir);
 bool    unlink(const char* path);
-bool    move(const char* src_path, const char* dest_path);
+bool    move(const char* src_path, const char* dest_path, bool replace=false);
 bool    copy(const char* src_path, const char* dest_path);
 bool    get_temp_dir(str_base& out);
 FILE*   create_temp_file(str_base* out=nullptr, const char* prefix=nullptr, const char* ext=nullptr, temp_file_mode mode=normal, const char* path=nullptr);
diff --git a/clink/core/src/os.cpp b/clink/core/src/os.cpp
index aac8c6d..9472c9d 100644
--- a/clink/core/src/os.cpp
+++ b/clink/core/src/os.cpp
@@ -686,11 +686,12 @@ bool unlink(const char* path)
 }
 
 //------------------------------------------------------------------------------
-bool move(const char* src_path, const char* dest_path)
+bool move(const char* src_path, const char* dest_path, bool replace)
 {
     wstr<280> wsrc_path(src_path);
     wstr<280> wdest_path(dest_path);
-    if (MoveFileW(wsrc_path.c_str(), wdest_path.c_str()))
+    const DWORD flags = MOVEFILE_COPY_ALLOWED|(replace ? MOVEFILE_REPLACE_EXISTING : 0);
+    if (MoveFileExW(wsrc_path.c_str(), wdest_path.c_str(), flags))
         return true;
 
     map_errno();
diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 2a4c5ad..4abc2c2 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -602,10 +602,22 @@ static bool save_internal(const char* file, bool migrating)
     path::to_parent(parent, nullptr);
     os::make_dir(parent.c_str());
 
-    // Open settings file.  When migrating, fail if the file already exists, so
-    // that if multiple concurrent migrations occur only one of them writes the
-    // new settings file.
-    FILE* out = fopen(file, migrating ? "wtx" : "wt");
+    // Write to a temporary file, which then replaces the settings file.  So
+    // that a failure cannot leave a settings file with only some of the
+    // settings, and no other process can read (and save) only some of them.
+    // But preserve a symlink, by writing directly to the target.
+    bool symlink = false;
+    str<280> tmp_file(file);
+    os::get_file_attributes(file, &symlink);
+    if (!symlink)
+    {
+        str<16> suffix;
+        suffix.format(".%u.tmp", GetCurrentProcessId());
+        tmp_file << suffix.c_str();
+    }
+
+    // Open settings file.
+    FILE* out = fopen(tmp_file.c_str(), "wt");
     if (out == nullptr)
         return false;
 
@@ -669,8 +681,29 @@ static bool save_internal(const char* file, bool migrating)
             fprintf(out, "%s%s = %s\n\n", iter.second.comment.c_str(), iter.first.c_str(), iter.second.value.c_str());
         }
 
-    fclose(out);
-    return true;
+    bool ok = !ferror(out);
+    if (fclose(out) != 0)
+        ok = false;
+    if (symlink)
+        return ok;
+
+    // When migrating, fail if the file already exists, so that if multiple
+    // concurrent migrations occur only one of them writes the new settings
+    // file.  The file can't be replaced while another process is reading it;
+    // that's very brief, so retry.
+    if (ok)
+    {
+        for (int32 retries = 20; true; Sleep(10))
+        {
+            ok = os::move(tmp_file.c_str(), file, !migrating/*replace*/);
+            if (ok || migrating || !retries--)
+                break;
+        }
+    }
+
+    if (!ok)
+        os::unlink(tmp_file.c_str());
+    return ok;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From ed52a4f5e28c7c8e0737ce86024dd37a26557827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 15/45] fix: all settings could be lost when changing a setting
 while the settings file can't be read

---
 clink/app/src/loader/loader.h |  2 +-
 clink/app/src/loader/set.cpp  | 13 ++++++++++---
 clink/core/src/settings.cpp   | 20 +++++++++++++-------
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/clink/app/src/loader/loader.h b/clink/app/src/loader/loader.h
index 507556d..267b2a8 100644
--- a/clink/app/src/loader/loader.h
+++ b/clink/app/src/loader/loader.h
@@ -6,4 +6,4 @@
 class str_base;
 
 void get_profile_path(const char* in, str_base& out);
-void load_settings_and_inputrc(str_base* settings_file=nullptr);
+bool load_settings_and_inputrc(str_base* settings_file=nullptr);
diff --git a/clink/app/src/loader/set.cpp b/clink/app/src/loader/set.cpp
index 57a0a7a..af38379 100644
--- a/clink/app/src/loader/set.cpp
+++ b/clink/app/src/loader/set.cpp
@@ -319,7 +319,7 @@ static bool save_settings(const char* settings_file)
 
 //------------------------------------------------------------------------------
 static str_moveable s_default_inputrc;
-void load_settings_and_inputrc(str_base* out)
+bool load_settings_and_inputrc(str_base* out)
 {
     const auto* const app = app_context::get();
 
@@ -328,7 +328,7 @@ void load_settings_and_inputrc(str_base* out)
     str_moveable default_settings_file;
     app->get_settings_path(settings_file);
     app->get_default_settings_file(default_settings_file);
-    settings::load(settings_file.c_str(), default_settings_file.c_str());
+    const bool ok = settings::load(settings_file.c_str(), default_settings_file.c_str());
 
     // Get the default init file.
     app->get_default_init_file(s_default_inputrc);
@@ -342,6 +342,7 @@ void load_settings_and_inputrc(str_base* out)
 
     if (out)
         (*out) = settings_file.c_str();
+    return ok;
 }
 
 //------------------------------------------------------------------------------
@@ -387,7 +388,7 @@ int32 set(int32 argc, char** argv)
 
     // Load the settings and inputrc file from disk.
     str_moveable settings_file;
-    load_settings_and_inputrc(&settings_file);
+    const bool loaded = load_settings_and_inputrc(&settings_file);
 
     // Load all lua state too as there is settings declared in scripts.  The
     // load function handles deferred load for settings declared in scripts.
@@ -428,6 +429,12 @@ int32 set(int32 argc, char** argv)
         return (print_value(describe, argv[0], compat) != true);
 
     default:
+        // Saving would discard the settings that couldn't be loaded.
+        if (!loaded)
+        {
+            printf("ERROR: Unable to read settings file '%s'.\n", settings_file.c_str());
+            return 1;
+        }
         if (_stricmp(argv[1], "clear") == 0)
         {
             if (set_value(argv[0], compat))
diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 4abc2c2..1283ec5 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -10,6 +10,7 @@
 #include "os.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <string>
 #include <map>
 #include <functional>
@@ -95,18 +96,20 @@ static bool load_internal(FILE* in, std::function<void(const char* name, const c
     int32 size = ftell(in);
     fseek(in, 0, SEEK_SET);
 
-    if (size == 0)
+    if (size <= 0)
     {
         fclose(in);
-        return false;
+        return (size == 0);
     }
 
     str<4096> buffer;
     buffer.reserve(size);
 
     char* data = buffer.data();
-    fread(data, size, 1, in);
+    const bool ok = (fread(data, size, 1, in) == 1);
     fclose(in);
+    if (!ok)
+        return false;
     data[size] = '\0';
 
     // Check for `clink set` output format:
@@ -556,17 +559,20 @@ bool load(const char* file, const char* default_file)
     FILE* in = fopen(file, "rb");
     if (in == nullptr)
     {
+        if (errno != ENOENT)
+            return false;
+
         // If there's no (new name) settings file, try to migrate from the old
         // name settings file.
         path::get_directory(file, old_file);
         path::append(old_file, "settings");
         in = fopen(old_file.c_str(), "rb");
         if (in == nullptr)
-            return true;
+            return (errno == ENOENT);
         migrating = true;
     }
 
-    load_internal(in, [migrating](const char* name, const char* value, const char* comment)
+    const bool ok = load_internal(in, [migrating](const char* name, const char* value, const char* comment)
     {
         // Migrate old setting.
         if (migrating)
@@ -587,10 +593,10 @@ bool load(const char* file, const char* default_file)
     // When migrating, ensure the new settings file is created so that the old
     // settings file can be deleted.  Some users or distributions may naturally
     // clean up the old settings file, so don't rely on it staying around.
-    if (migrating)
+    if (migrating && ok)
         save_internal(file, migrating);
 
-    return true;
+    return ok;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From f913d7d79a895518d3409ddd562eef0acecd41c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 16/45] fix: default_settings had no effect on enum settings of
 scripts

---
 clink/core/src/settings.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 1283ec5..1af0400 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -1504,6 +1504,7 @@ setting_enum::setting_enum(
 , m_options(options)
 {
     m_type = type_enum;
+    set();
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 884d73cd12f4ca92b59bc2e177b2ae7f714aa2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 17/45] fix: a settings file of 64 KB or more overflowed a
 buffer

---
 clink/core/src/settings.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 1af0400..fddc027 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -102,10 +102,8 @@ static bool load_internal(FILE* in, std::function<void(const char* name, const c
         return (size == 0);
     }
 
-    str<4096> buffer;
-    buffer.reserve(size);
-
-    char* data = buffer.data();
+    std::string buffer(size, '\0'); // (The file may be too big for str<>.)
+    char* data = &buffer[0];
     const bool ok = (fread(data, size, 1, in) == 1);
     fclose(in);
     if (!ok)
@@ -218,10 +216,8 @@ static bool parse_ini(FILE* in, std::vector<settings::setting_name_value>& out)
         return false;
     }
 
-    str<4096> buffer;
-    buffer.reserve(size);
-
-    char* data = buffer.data();
+    std::string buffer(size, '\0'); // (The file may be too big for str<>.)
+    char* data = &buffer[0];
     fread(data, size, 1, in);
     fclose(in);
     data[size] = '\0';
-- 
2.43.0


From 31adb5b4ea565cf97058e94ae7fa212bbcef4c14 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 18/45] fix: clink autorun show reported failure on success

show_autorun() returns true on success, but it was returned as the exit code.
---
 clink/app/src/loader/autorun.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index b5d4ba5..1196dc0 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -651,7 +651,7 @@ int32 autorun(int32 argc, char** argv)
         }
 
         if (show)
-            return show_autorun();
+            return show_autorun() ? 0 : 1;
     }
 
     // Get path where clink is installed (assumed to be where this executable is)
-- 
2.43.0


From 085cd76b55536529e3a322e690d3786afde2e729 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 19/45] fix: clink autorun uninstall could remove other
 commands from AutoRun

Every entry was treated as quoted, so removing an unquoted clink entry also
removed the commands before it.  And & inside quotes in clink's own arguments
ended the entry early, leaving the rest of the arguments behind as a command.
---
 clink/app/src/loader/autorun.cpp | 62 ++++++++++++++++----------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index 1196dc0..a1509d9 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -229,6 +229,25 @@ static bool check_registry_access()
     return true;
 }
 
+//------------------------------------------------------------------------------
+// Finds the next command separator, ignoring quoted and escaped ones.
+static const char* find_separator(const char* c)
+{
+    bool quote = false;
+    for (; *c; ++c)
+    {
+        if (*c == '\"')
+            quote = !quote;
+        else if (quote)
+            continue;
+        else if (*c == '^' && c[1])
+            ++c;
+        else if (*c == '&')
+            return c;
+    }
+    return nullptr;
+}
+
 //------------------------------------------------------------------------------
 static bool find_clink_entry(const char* value, int32* left, int32* right, const char* clink_path)
 {
@@ -259,7 +278,7 @@ static bool find_clink_entry(const char* value, int32* left, int32* right, const
             // Check if clink's path is quoted.  Checking the needle makes
             // sure not to get tricked by a false positive from something else
             // later on in the value.
-            quoted = !!strchr(needles[i], ' ');
+            quoted = !!strchr(needles[i], '\"');
             break;
         }
     }
@@ -267,12 +286,17 @@ static bool find_clink_entry(const char* value, int32* left, int32* right, const
     if (tag == nullptr)
         return false;
 
-    // Find right most extents of clink's entry.
-    c = strchr(tag, '&');
-    if (c != nullptr)
-        *right = (int32)(c - value);
-    else
-        *right = (int32)strlen(value);
+    // Find the extents of clink's entry:  it starts with the last command
+    // separator before the tag (& or &&), and it ends with the next one.
+    const char* start = value;
+    const char* entry = value;
+    while ((c = find_separator(entry)) != nullptr && c < tag)
+    {
+        start = c;
+        entry = c + 1 + (c[1] == '&');
+    }
+    *left = (int32)(start - value);
+    *right = (c != nullptr) ? (int32)(c - value) : (int32)strlen(value);
 
     // When enumerating users, only respond to entries referencing /this/
     // instance of clink.
@@ -280,7 +304,7 @@ static bool find_clink_entry(const char* value, int32* left, int32* right, const
     {
         i = quoted ? '\"' : ' ';
         c = tag;
-        while (c > value && c[-1] != i)
+        while (c > entry && c[-1] != i)
             --c;
 
         str<> lower_entry;
@@ -295,28 +319,6 @@ static bool find_clink_entry(const char* value, int32* left, int32* right, const
             return false;
     }
 
-    // And find the left most extent. First search for opening quote if need
-    // be, then search for command separator.
-    i = quoted ? '\"' : '&';
-    c = tag;
-    while (c > value)
-    {
-        if (c[0] == i)
-        {
-            if (!quoted)
-            {
-                c -= (c[-1] == i);  // & or &&?
-                break;
-            }
-
-            quoted = 0;
-            i = '&';
-        }
-
-        --c;
-    }
-    *left = (int32)(c - value);
-
     return true;
 }
 
-- 
2.43.0


From b2b360d67f03cd2ef53a2714f0002967d5094238 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 20/45] fix: clink autorun install could overwrite AutoRun when
 it can't be read

A failure to read the AutoRun value was treated like there being no value, so
the commands of other programs were lost.
---
 clink/app/src/loader/autorun.cpp | 40 +++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index a1509d9..deaca16 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -143,7 +143,9 @@ static bool set_value(HKEY key, const char* _name, const char* _value)
 }
 
 //------------------------------------------------------------------------------
-static int32 get_value(HKEY key, const char* _name, char** _buffer)
+// Returns false when the value can't be read.  If there is no value, then it
+// returns true and *_buffer is nullptr.
+static bool get_value(HKEY key, const char* _name, char** _buffer)
 {
     *_buffer = nullptr;
 
@@ -152,17 +154,23 @@ static int32 get_value(HKEY key, const char* _name, char** _buffer)
     DWORD type = 0;
     DWORD req_size = 0;
     int32 i = RegQueryValueExW(key, name.c_str(), nullptr, &type, nullptr, &req_size);
+    if (i == ERROR_FILE_NOT_FOUND)
+        return true;
     if (i != ERROR_SUCCESS && i != ERROR_MORE_DATA)
-        return 0;
+        return false;
     if (type != REG_SZ && type != REG_EXPAND_SZ)
-        return 0;
+        return true;
 
     WCHAR* buffer = static_cast<WCHAR*>(malloc(req_size + sizeof(*buffer)));
     if (!buffer)
-        return 0;
+        return false;
 
     ZeroMemory(buffer, req_size + sizeof(*buffer));
-    RegQueryValueExW(key, name.c_str(), nullptr, nullptr, (BYTE*)buffer, &req_size);
+    if (RegQueryValueExW(key, name.c_str(), nullptr, nullptr, (BYTE*)buffer, &req_size) != ERROR_SUCCESS)
+    {
+        free(buffer);
+        return false;
+    }
     assert(wcslen(buffer) <= req_size / sizeof(*buffer));
 
     int32 len = WideCharToMultiByte(CP_UTF8, 0, buffer, -1, nullptr, 0, nullptr, nullptr);
@@ -183,7 +191,7 @@ static int32 get_value(HKEY key, const char* _name, char** _buffer)
 
     free(buffer);
 
-    return len;
+    return *_buffer != nullptr;
 }
 
 //------------------------------------------------------------------------------
@@ -339,7 +347,11 @@ static bool uninstall_autorun_from_key(HKEY cmd_proc_key, const char* clink_path
     bool ret = true;
 
     char* key_value = nullptr;
-    get_value(cmd_proc_key, "AutoRun", &key_value);
+    if (!get_value(cmd_proc_key, "AutoRun", &key_value))
+    {
+        puts("ERROR: Failed to read AutoRun value");
+        return false;
+    }
 
     int32 left, right;
     if (key_value && find_clink_entry(key_value, &left, &right, clink_path))
@@ -442,7 +454,12 @@ static bool install_autorun(const char* clink_path, int32 wow64)
     }
 
     key_value = nullptr;
-    get_value(cmd_proc_key, "AutoRun", &key_value);
+    if (!get_value(cmd_proc_key, "AutoRun", &key_value))
+    {
+        puts("ERROR: Failed to read AutoRun value");
+        close_key(cmd_proc_key);
+        return false;
+    }
 
     i = key_value ? (int32)strlen(key_value) : 0;
     i += 2048;
@@ -501,7 +518,12 @@ static bool show_autorun()
             }
 
             key_value = nullptr;
-            get_value(cmd_proc_key, "AutoRun", &key_value);
+            if (!get_value(cmd_proc_key, "AutoRun", &key_value))
+            {
+                puts("ERROR: Failed to read AutoRun value");
+                close_key(cmd_proc_key);
+                return false;
+            }
 
             printf("\n    %6s : %s",
                     wow64     ? " wow64"  : "native",
-- 
2.43.0


From 62ac9fb2238bd923e56e126f604a2a340d54ba9f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 21/45] fix: clink autorun install could leave two clink
 entries

When removing the previous entry failed, another one was added anyway.
---
 clink/app/src/loader/autorun.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index deaca16..29e7a9e 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -444,7 +444,8 @@ static bool install_autorun(const char* clink_path, int32 wow64)
     // could just check for an exisiting entry, but by always uninstalling and
     // reinstalling, we ensure clink's last in the chain, which allows it to
     // play nicely with other projects that hook cmd.exe and install autoruns.
-    uninstall_autorun(clink_path, wow64);
+    if (!uninstall_autorun(clink_path, wow64))
+        return false;
 
     cmd_proc_key = open_cmd_proc_key(g_all_users, wow64, 1);
     if (cmd_proc_key == nullptr)
-- 
2.43.0


From e4faaff3bdaaeb2b586cb1b1615bc9f7e9debb4a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 22/45] fix: clink installscripts could lose the other paths
 when the list can't be read

A failure to read the list was treated like an empty list, which then replaced
the list.
---
 clink/app/src/loader/installscripts.cpp | 8 ++++++--
 clink/app/src/utils/app_context.cpp     | 8 +++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/clink/app/src/loader/installscripts.cpp b/clink/app/src/loader/installscripts.cpp
index 757a328..2867c70 100644
--- a/clink/app/src/loader/installscripts.cpp
+++ b/clink/app/src/loader/installscripts.cpp
@@ -14,7 +14,7 @@
 #include <getopt.h>
 
 //------------------------------------------------------------------------------
-void get_installed_scripts(str_base& out);
+bool get_installed_scripts(str_base& out);
 bool set_installed_scripts(char const* in);
 
 //------------------------------------------------------------------------------
@@ -43,7 +43,11 @@ static bool change_value(bool install, char** argv=nullptr, int32 argc=0)
 
     str<> new_list;
     str<> old_list;
-    get_installed_scripts(old_list);
+    if (!get_installed_scripts(old_list))
+    {
+        puts("ERROR: Unable to read registry.");
+        return false;
+    }
 
     str_compare_scope _(str_compare_scope::caseless, false);
     bool uninstalled = false;
diff --git a/clink/app/src/utils/app_context.cpp b/clink/app/src/utils/app_context.cpp
index f3e5048..c649db9 100644
--- a/clink/app/src/utils/app_context.cpp
+++ b/clink/app/src/utils/app_context.cpp
@@ -57,7 +57,8 @@ wait_for_attach_mode get_wait_for_attach()
 #endif
 
 //------------------------------------------------------------------------------
-void get_installed_scripts(str_base& out)
+// Returns false when the list can't be read.
+bool get_installed_scripts(str_base& out)
 {
     out.clear();
 
@@ -74,7 +75,12 @@ void get_installed_scripts(str_base& out)
                 to_utf8(out, buffer);
             free(buffer);
         }
+        else
+        {
+            status = ERROR_NOT_ENOUGH_MEMORY;
+        }
     }
+    return (status == ERROR_SUCCESS || status == ERROR_FILE_NOT_FOUND || status == ERROR_UNSUPPORTED_TYPE);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 693ed0696d609bb99aebf2a4d1b0407fe53e7259 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 23/45] fix: clink uninstallscripts --all didn't list what it
 uninstalled

The list was read after it had been cleared.
---
 clink/app/src/loader/installscripts.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clink/app/src/loader/installscripts.cpp b/clink/app/src/loader/installscripts.cpp
index 2867c70..35c5017 100644
--- a/clink/app/src/loader/installscripts.cpp
+++ b/clink/app/src/loader/installscripts.cpp
@@ -222,15 +222,15 @@ int32 uninstallscripts(int32 argc, char** argv)
             return 1;
         }
 
+        str<> list;
+        get_installed_scripts(list);
+
         if (!set_installed_scripts(""))
         {
             puts("ERROR: Unable to update registry.");
             return 1;
         }
 
-        str<> list;
-        get_installed_scripts(list);
-
         str_tokeniser tokens(list.c_str(), ";");
         str_iter token;
         while (tokens.next(token))
-- 
2.43.0


From ca31efd24ee1bd968099d7962793a02b12d9c99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 24/45] fix: the unfinished last line of a multi-line paste got
 a CR appended

---
 clink/app/src/host/host_cmd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/app/src/host/host_cmd.cpp b/clink/app/src/host/host_cmd.cpp
index 6d349d0..04be3b6 100644
--- a/clink/app/src/host/host_cmd.cpp
+++ b/clink/app/src/host/host_cmd.cpp
@@ -733,8 +733,8 @@ LReturnReal:
     // Respond with a queued line, if available.
     if (hc->dequeue_line(line, flags))
     {
-        // Trim the newline, since it gets added again further below.
-        while (line.length() && line.c_str()[line.length() - 1] == '\n')
+        // Trim the CR and LF, since it gets added again further below.
+        while (line.length() && (line.c_str()[line.length() - 1] == '\n' || line.c_str()[line.length() - 1] == '\r'))
             line.truncate(line.length() - 1);
 
         if (check_dequeue_flag(flags, dequeue_flags::show_line))
-- 
2.43.0


From 0eb323f0218e73961d5d6efd27dd9647cc6a9b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 25/45] fix: editing could erase the unchanged end of the line
 from the screen

---
 clink/lib/src/display_readline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index aecee31..dc97d1c 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2638,8 +2638,8 @@ left_whole:
                         use_eol_opt = false;
                         break;
                     }
-                    --ec;
-                    --ef;
+                    ++ec;
+                    ++ef;
                 }
             }
 
-- 
2.43.0


From 7ba85b890da6d2e9e96d7eb88ca5bc90d8464332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 26/45] fix: typed text wasn't shown when an ignored input
 event followed it

---
 clink/lib/src/rl/rl_module.cpp         | 8 ++++++--
 clink/terminal/src/win_terminal_in.cpp | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/clink/lib/src/rl/rl_module.cpp b/clink/lib/src/rl/rl_module.cpp
index 593b857..2a9da17 100644
--- a/clink/lib/src/rl/rl_module.cpp
+++ b/clink/lib/src/rl/rl_module.cpp
@@ -469,7 +469,7 @@ extern "C" int32 input_available_hook(void)
         // Passing -1 returns the current timeout without changing it.  The
         // timeout is in microseconds (µsec) so divide by 1000 for milliseconds.
         const int32 timeout = rl_set_keyboard_input_timeout(-1);
-        if (s_direct_input->available(timeout > 0 ? timeout / 1000 : 0))
+        while (s_direct_input->available(timeout > 0 ? timeout / 1000 : 0))
         {
             // Buffers the available input so it's available to Readline for
             // reading.  Clink's terminal_getc_thunk is designed to require a
@@ -478,7 +478,11 @@ extern "C" int32 input_available_hook(void)
             // that win_terminal_in has the input queued, otherwise rl_read_key
             // won't be able to receive the available input.
             s_direct_input->select(nullptr, 0);
-            return true;
+
+            // If select() discarded the input (e.g. the key isn't bound), then
+            // there's nothing for rl_read_key to receive, and it would wait.
+            if (s_direct_input->peek() != terminal_in::input_none)
+                return true;
         }
     }
     return false;
diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index 3e8b7b9..9b2756f 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -1071,7 +1071,10 @@ bool win_terminal_in::peek_record(const INPUT_RECORD& record, int32* peeked)
         break;
 
     case WINDOW_BUFFER_SIZE_EVENT:
-        ret = true;
+        // Only the same events that process_record() accepts are input.
+        ret = (get_dimensions() != m_dimensions);
+        if (!ret)
+            reset_wcwidths();
         break;
     }
 
-- 
2.43.0


From 37a29e74fb96222f7009f9ccae5a46b8d7bd95be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 27/45] fix: io.popenyield left a suspended thread behind when
 the command can't start

---
 clink/lua/src/io_api.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/lua/src/io_api.cpp b/clink/lua/src/io_api.cpp
index a373f90..e7aef2a 100644
--- a/clink/lua/src/io_api.cpp
+++ b/clink/lua/src/io_api.cpp
@@ -535,6 +535,8 @@ private:
         if (temp_write)
             CloseHandle(temp_write);
         delete info;
+        if (failed && buffering)
+            buffering->cancel(); // Or else the suspended thread never exits.
         buffering = nullptr;
 
         if (failed)
-- 
2.43.0


From 8842f186e32d41a046b0e2c79894d614a7700331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 28/45] fix: kills were merged although text was typed between
 them

---
 readline/readline/text.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/readline/readline/text.c b/readline/readline/text.c
index 77709b8..cd79df4 100644
--- a/readline/readline/text.c
+++ b/readline/readline/text.c
@@ -1093,6 +1093,10 @@ rl_insert (int count, int c)
       /* setting rl_pending_input inhibits setting rl_last_func so we do it
 	 ourselves here */
       rl_last_func = rl_insert; 
+/* begin_clink_change */
+      /* It also inhibits noticing that the last command wasn't a kill. */
+      _rl_last_command_was_kill = 0;
+/* end_clink_change */
       _rl_reset_argument ();
       rl_executing_keyseq[rl_key_sequence_length = 0] = '\0';
       r = rl_execute_next (n);
-- 
2.43.0


From 4ff4cb18d112a96a284421365059c0c872243393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 29/45] fix: a multibyte character could be inserted in pieces
 while typing ahead

---
 readline/readline/text.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/readline/readline/text.c b/readline/readline/text.c
index cd79df4..4ac2526 100644
--- a/readline/readline/text.c
+++ b/readline/readline/text.c
@@ -1040,7 +1040,8 @@ rl_insert (int count, int c)
   while (_rl_optimize_typeahead &&
 	 rl_num_chars_to_read == 0 &&
 /* begin_clink_change */
-	 GetTickCount () - tick < batch_timeout &&
+	 /* Don't stop in the middle of a multibyte character. */
+	 (r == 1 || GetTickCount () - tick < batch_timeout) &&
 	 //(RL_ISSTATE (RL_STATE_INPUTPENDING|RL_STATE_MACROINPUT) == 0) &&
 	 (RL_ISSTATE (RL_STATE_INPUTPENDING) == 0) &&
 /* end_clink_change */
-- 
2.43.0


From 310cacbe65b9f6c0f6718cbc073bf7d41624e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:01 +0000
Subject: [PATCH 30/45] fix: a key that was read ahead when Ctrl-Break ended a
 line is applied to the next line

---
 clink/lib/src/rl/rl_module.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/lib/src/rl/rl_module.cpp b/clink/lib/src/rl/rl_module.cpp
index 2a9da17..89e084f 100644
--- a/clink/lib/src/rl/rl_module.cpp
+++ b/clink/lib/src/rl/rl_module.cpp
@@ -2895,6 +2895,7 @@ void rl_module::on_end_line()
     // This prevents any partial Readline state leaking from one line to the
     // next.  One case where this is necessary is CTRL-BREAK (not CTRL-C) at
     // the pager's "-- More --" prompt.
+    rl_clear_pending_input();
     RL_UNSETSTATE(RL_RESET_STATES);
 
     g_rl_buffer = nullptr;
-- 
2.43.0


From 8827c300681c0434de4f9a3653cd75927db1dfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 31/45] fix: a coroutine waiting behind another prompt
 coroutine's popenyield was not woken

release_coroutine_yieldguard() compared the entry's category field, which does
not exist; the entries record it as yield_category.  So nothing was released,
and the queued coroutine stayed queued until the next key.
---
 clink/lua/scripts/coroutines.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/scripts/coroutines.lua b/clink/lua/scripts/coroutines.lua
index d784725..2d5b1d6 100644
--- a/clink/lua/scripts/coroutines.lua
+++ b/clink/lua/scripts/coroutines.lua
@@ -101,7 +101,7 @@ local function release_coroutine_yieldguard()
                 -- TODO: This is an arbitrary order, but the dequeue order
                 -- should ideally be FIFO.
                 for _,e in pairs(_coroutines) do
-                    if e.queued and e.category == category then
+                    if e.queued and e.yield_category == category then
                         e.queued = nil
                         break
                     end
-- 
2.43.0


From 0114968118e386419961997e2c99b7b51707451a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:45 +0000
Subject: [PATCH 32/45] fix: Ctrl-Break could be lost until the next key

read_console() reset the event that interrupts it, so a Ctrl-Break that arrived
while the prompt was being prepared or displayed had no effect until a key was
pressed, and then ended the line being typed.  Now the event is reset when the
signal has been dealt with, under a lock so that a late SetEvent can't end the
next line.
---
 clink/lib/src/clink_ctrlevent.cpp          |  9 +++++++++
 clink/terminal/include/terminal/terminal.h |  1 +
 clink/terminal/src/win_terminal_in.cpp     | 11 +++++++----
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/clink_ctrlevent.cpp b/clink/lib/src/clink_ctrlevent.cpp
index 1ceb219..21d2f30 100644
--- a/clink/lib/src/clink_ctrlevent.cpp
+++ b/clink/lib/src/clink_ctrlevent.cpp
@@ -8,9 +8,11 @@
 
 #include <signal.h>
 #include <assert.h>
+#include <mutex>
 
 //------------------------------------------------------------------------------
 static volatile int32 clink_signal = 0;
+static std::mutex s_signal_mutex;       // Keeps the signal and the interruption of input in step.
 static int32 s_ctrlevent_install_count = 0;
 
 //------------------------------------------------------------------------------
@@ -22,7 +24,13 @@ int32 clink_is_signaled()
 //------------------------------------------------------------------------------
 void clink_set_signaled(int32 sig)
 {
+    std::lock_guard<std::mutex> lock(s_signal_mutex);
     clink_signal = sig;
+
+    // Once the signal has been dealt with it mustn't interrupt later input.
+    // But until then it must, even if waiting for input hasn't started yet.
+    if (!sig)
+        reset_interrupt_input();
 }
 
 //------------------------------------------------------------------------------
@@ -30,6 +38,7 @@ static BOOL WINAPI clink_ctrlevent_handler(DWORD ctrl_type)
 {
     if (ctrl_type == CTRL_C_EVENT || ctrl_type == CTRL_BREAK_EVENT)
     {
+        std::lock_guard<std::mutex> lock(s_signal_mutex);
         clink_signal = (ctrl_type == CTRL_C_EVENT) ? SIGINT : SIGBREAK;
         interrupt_input();
     }
diff --git a/clink/terminal/include/terminal/terminal.h b/clink/terminal/include/terminal/terminal.h
index 1f44e56..9c500aa 100644
--- a/clink/terminal/include/terminal/terminal.h
+++ b/clink/terminal/include/terminal/terminal.h
@@ -26,4 +26,5 @@ const char*         find_key_name(const char* keyseq, int32& len, int32& eqclass
 //------------------------------------------------------------------------------
 void                set_verbose_input(int32 verbose); // 1 = inline, 2 = at top of screen
 void                interrupt_input();
+void                reset_interrupt_input();
 void                reset_keyseq_to_name_map();
diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index 9b2756f..3125e31 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -253,6 +253,13 @@ void interrupt_input()
         SetEvent(s_interrupt);
 }
 
+//------------------------------------------------------------------------------
+void reset_interrupt_input()
+{
+    if (s_interrupt)
+        ResetEvent(s_interrupt);
+}
+
 
 
 //------------------------------------------------------------------------------
@@ -1182,10 +1189,6 @@ void win_terminal_in::read_console(input_idle* callback, DWORD _timeout, bool pe
             SetConsoleCursorPosition(m_stdout, csbi.dwCursorPosition);
     }
 
-    // Reset interrupt detection (allow Ctrl+Break to cancel input).
-    if (s_interrupt)
-        ResetEvent(s_interrupt);
-
     // Read input records sent from the terminal (aka conhost) until some
     // input has been buffered.
     const DWORD started = GetTickCount();
-- 
2.43.0


From 23a77503aef0fdce3ad2283181ea173e56469c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:13 +0000
Subject: [PATCH 33/45] fix: Ctrl-Break in the middle of quoted-insert applied
 the next line's first key to it

---
 clink/lib/src/rl/rl_module.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clink/lib/src/rl/rl_module.cpp b/clink/lib/src/rl/rl_module.cpp
index 89e084f..9808660 100644
--- a/clink/lib/src/rl/rl_module.cpp
+++ b/clink/lib/src/rl/rl_module.cpp
@@ -2897,6 +2897,12 @@ void rl_module::on_end_line()
     // the pager's "-- More --" prompt.
     rl_clear_pending_input();
     RL_UNSETSTATE(RL_RESET_STATES);
+    _rl_callback_func = nullptr;
+    if (_rl_callback_data)
+    {
+        _rl_callback_data_dispose(_rl_callback_data);
+        _rl_callback_data = nullptr;
+    }
 
     g_rl_buffer = nullptr;
     g_pager = nullptr;
-- 
2.43.0


From 883646f6fe4ba8318b6fda1de0641e91fae5f74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:28 +0000
Subject: [PATCH 34/45] fix: Ctrl-Break could be dealt with twice, which left
 the session reading empty lines forever

The console calls clink_ctrlevent_handler(), which wakes the main thread, and
then the C runtime's handler, which calls clink_sighandler().  The main thread
could deal with the signal in between:  without the hook it didn't clear the
queued lines, and then clink_sighandler() signaled again, so the line (or the
next one) ended twice.
---
 clink/lib/include/lib/clink_ctrlevent.h |  9 +++++++--
 clink/lib/include/lib/clink_rl_signal.h |  1 +
 clink/lib/src/clink_ctrlevent.cpp       | 21 +++++++++++++++++++--
 clink/lib/src/clink_rl_signal.cpp       | 22 ++++++++++++++++------
 clink/lib/src/rl/rl_module.cpp          |  2 +-
 5 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/clink/lib/include/lib/clink_ctrlevent.h b/clink/lib/include/lib/clink_ctrlevent.h
index c1607ff..ba4d3c7 100644
--- a/clink/lib/include/lib/clink_ctrlevent.h
+++ b/clink/lib/include/lib/clink_ctrlevent.h
@@ -1,12 +1,17 @@
 // Copyright (c) 2023 Christopher Antos
 // License: http://opensource.org/licenses/MIT
 
-void clink_install_ctrlevent();
+#pragma once
+
+void clink_install_ctrlevent(void (*hook)()=nullptr);
 void clink_shutdown_ctrlevent();
 
 int32 clink_is_signaled();
 
-void clink_set_signaled(int32 sig);   // SIGINT, etc.
+bool clink_is_ctrlevent_thread();
+
+// The hook is called in step with changing the signal.
+void clink_set_signaled(int32 sig, void (*hook)()=nullptr);   // SIGINT, etc.
 
 #ifdef DEBUG
 extern bool g_suppress_signal_assert;
diff --git a/clink/lib/include/lib/clink_rl_signal.h b/clink/lib/include/lib/clink_rl_signal.h
index 1db0c0f..098926b 100644
--- a/clink/lib/include/lib/clink_rl_signal.h
+++ b/clink/lib/include/lib/clink_rl_signal.h
@@ -8,6 +8,7 @@
 extern void (*after_signal_hook_fn)();
 
 void clink_sighandler(int32 sig);
+void clink_set_event_hook();
 bool clink_maybe_handle_signal();
 
 void force_signaled_redisplay();
diff --git a/clink/lib/src/clink_ctrlevent.cpp b/clink/lib/src/clink_ctrlevent.cpp
index 21d2f30..6da7626 100644
--- a/clink/lib/src/clink_ctrlevent.cpp
+++ b/clink/lib/src/clink_ctrlevent.cpp
@@ -14,6 +14,8 @@
 static volatile int32 clink_signal = 0;
 static std::mutex s_signal_mutex;       // Keeps the signal and the interruption of input in step.
 static int32 s_ctrlevent_install_count = 0;
+static void (*s_ctrlevent_hook)() = nullptr;
+static volatile DWORD s_ctrlevent_thread = 0;
 
 //------------------------------------------------------------------------------
 int32 clink_is_signaled()
@@ -22,9 +24,20 @@ int32 clink_is_signaled()
 }
 
 //------------------------------------------------------------------------------
-void clink_set_signaled(int32 sig)
+// Returns whether the current thread is the one on which the console called
+// clink_ctrlevent_handler().  It goes on to call the C runtime's handler, which
+// calls clink_sighandler().
+bool clink_is_ctrlevent_thread()
+{
+    return s_ctrlevent_thread == GetCurrentThreadId();
+}
+
+//------------------------------------------------------------------------------
+void clink_set_signaled(int32 sig, void (*hook)())
 {
     std::lock_guard<std::mutex> lock(s_signal_mutex);
+    if (hook)
+        hook();
     clink_signal = sig;
 
     // Once the signal has been dealt with it mustn't interrupt later input.
@@ -39,6 +52,9 @@ static BOOL WINAPI clink_ctrlevent_handler(DWORD ctrl_type)
     if (ctrl_type == CTRL_C_EVENT || ctrl_type == CTRL_BREAK_EVENT)
     {
         std::lock_guard<std::mutex> lock(s_signal_mutex);
+        s_ctrlevent_thread = GetCurrentThreadId();
+        if (s_ctrlevent_hook)
+            s_ctrlevent_hook();
         clink_signal = (ctrl_type == CTRL_C_EVENT) ? SIGINT : SIGBREAK;
         interrupt_input();
     }
@@ -72,10 +88,11 @@ static BOOL WINAPI clink_ctrlevent_handler(DWORD ctrl_type)
 }
 
 //------------------------------------------------------------------------------
-void clink_install_ctrlevent()
+void clink_install_ctrlevent(void (*hook)())
 {
     assert(s_ctrlevent_install_count == 0);
     s_ctrlevent_install_count++;
+    s_ctrlevent_hook = hook;
 
     SetConsoleCtrlHandler(clink_ctrlevent_handler, true);
 }
diff --git a/clink/lib/src/clink_rl_signal.cpp b/clink/lib/src/clink_rl_signal.cpp
index d200ea2..ece2645 100644
--- a/clink/lib/src/clink_rl_signal.cpp
+++ b/clink/lib/src/clink_rl_signal.cpp
@@ -20,13 +20,18 @@ bool g_suppress_signal_assert = false;
 void (*after_signal_hook_fn)() = nullptr;
 
 //------------------------------------------------------------------------------
-static void clink_reset_event_hook()
+static void clink_clear_event_hook()
 {
     rl_signal_event_hook = nullptr;
-    clink_set_signaled(0);
     clink_rl_cleanup_needed = false;
 }
 
+//------------------------------------------------------------------------------
+static void clink_reset_event_hook()
+{
+    clink_set_signaled(0, clink_clear_event_hook);
+}
+
 //------------------------------------------------------------------------------
 static int32 clink_event_hook()
 {
@@ -47,9 +52,10 @@ static int32 clink_event_hook()
 }
 
 //------------------------------------------------------------------------------
-static void clink_set_event_hook()
+void clink_set_event_hook()
 {
     rl_signal_event_hook = clink_event_hook;
+    clink_rl_cleanup_needed = !RL_ISSTATE(RL_STATE_SIGHANDLER);
 }
 
 //------------------------------------------------------------------------------
@@ -57,9 +63,13 @@ void clink_sighandler(int32 sig)
 {
     // raise() clears the signal handler, so set it again.
     signal(sig, clink_sighandler);
-    clink_set_event_hook();
-    clink_set_signaled(sig);
-    clink_rl_cleanup_needed = !RL_ISSTATE(RL_STATE_SIGHANDLER);
+
+    // The ctrlevent handler has already set the signal, and by now the main
+    // thread may have dealt with it.
+    if (clink_is_ctrlevent_thread())
+        return;
+
+    clink_set_signaled(sig, clink_set_event_hook);
 }
 
 //------------------------------------------------------------------------------
diff --git a/clink/lib/src/rl/rl_module.cpp b/clink/lib/src/rl/rl_module.cpp
index 9808660..d848b6e 100644
--- a/clink/lib/src/rl/rl_module.cpp
+++ b/clink/lib/src/rl/rl_module.cpp
@@ -2757,7 +2757,7 @@ void rl_module::on_begin_line(const context& context)
 #ifdef SIGBREAK
     m_old_break = signal(SIGBREAK, clink_sighandler);
 #endif
-    clink_install_ctrlevent();
+    clink_install_ctrlevent(clink_set_event_hook);
 
     // Parse the match colors before installing the Readline callback handler,
     // so that any error messages are printed before any prompt display
-- 
2.43.0


From 3d1cd4ee95f99ced2c1cd24de0ed4c4589ab1248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:19 +0000
Subject: [PATCH 35/45] fix: Ctrl-Break at the start of a line was lost until
 the next key

The C runtime's handler calls clink_sighandler() when the break arrives before
clink has installed its own handler for the line, but nothing interrupted the
wait for input.
---
 clink/lib/src/clink_rl_signal.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/clink_rl_signal.cpp b/clink/lib/src/clink_rl_signal.cpp
index ece2645..f5329d2 100644
--- a/clink/lib/src/clink_rl_signal.cpp
+++ b/clink/lib/src/clink_rl_signal.cpp
@@ -5,6 +5,8 @@
 #include "pch.h"
 #include "clink_ctrlevent.h"
 
+#include <terminal/terminal.h>
+
 #include <signal.h>
 #include <assert.h>
 
@@ -69,7 +71,11 @@ void clink_sighandler(int32 sig)
     if (clink_is_ctrlevent_thread())
         return;
 
-    clink_set_signaled(sig, clink_set_event_hook);
+    // Otherwise nothing has interrupted waiting for input yet.
+    clink_set_signaled(sig, []{
+        clink_set_event_hook();
+        interrupt_input();
+    });
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 6e86000436b98ec77afb99539a7c78befd534277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:47 +0000
Subject: [PATCH 36/45] fix: commands that read keys themselves ignored
 non-ASCII characters

rl_read_key() returned the bytes of the input as signed values, which for
instance the incremental search took for the end of the input: non-ASCII
characters were missing from the search text.
---
 readline/readline/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readline/readline/input.c b/readline/readline/input.c
index 79c4760..89ee086 100644
--- a/readline/readline/input.c
+++ b/readline/readline/input.c
@@ -860,7 +860,7 @@ rl_read_key (void)
   const char* src = NULL;
   if (_clink_input_len > 0)
     {
-      c = *(_clink_input++);
+      c = (unsigned char)*(_clink_input++);
       --_clink_input_len;
       goto out;
     }
-- 
2.43.0


From 7f953bd0b95fda3d7229dbc037d79f7b11be4a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:50 +0000
Subject: [PATCH 37/45] fix: onprovideline lost queued lines and ran text that
 was not accepted

---
 clink/app/src/host/host.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clink/app/src/host/host.cpp b/clink/app/src/host/host.cpp
index a34b85a..88dd34b 100644
--- a/clink/app/src/host/host.cpp
+++ b/clink/app/src/host/host.cpp
@@ -988,7 +988,11 @@ force_reload_lua:
     bool skip_editor = false;
     if (send_event)
     {
-        if (!m_skip_provide_line && !clink_is_signaled())
+        // Not while there is a pending line (queued, or text that remains to be
+        // edited); otherwise the pending line would be lost, or would be
+        // executed without having been accepted.
+        const bool pending = !edit || !out.empty() || m_pending_command.length();
+        if (!m_skip_provide_line && !pending && !clink_is_signaled())
         {
             str<> tmp;
             lua.send_event_string_out("onprovideline", tmp);
-- 
2.43.0


From 0de3331fb115c404a07230f4695c15b9d9f409de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:51 +0000
Subject: [PATCH 38/45] fix: an error in an onhistory handler lost the line
 from the history

---
 clink/lua/src/lua_state.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/lua/src/lua_state.cpp b/clink/lua/src/lua_state.cpp
index e1e6e18..9126b4c 100644
--- a/clink/lua/src/lua_state.cpp
+++ b/clink/lua/src/lua_state.cpp
@@ -841,6 +841,9 @@ bool lua_state::send_onhistory_event(const char* line, str_base& override_add)
 {
     lua_State* L = get_state();
 
+    // Use the line as is, if the event fails.
+    override_add = line;
+
     lua_pushstring(L, line);
     if (!send_event_internal(L, "onhistory", "_send_event_cancelable_override_string", 1, 1))
         return false;
-- 
2.43.0


From a9a95cc928b0c075531c4b3378e748e837885fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:49 +0000
Subject: [PATCH 39/45] fix: a value that isn't a string in the result of an
 onfilterinput handler crashed

---
 clink/lua/src/lua_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/src/lua_state.cpp b/clink/lua/src/lua_state.cpp
index 9126b4c..38a7518 100644
--- a/clink/lua/src/lua_state.cpp
+++ b/clink/lua/src/lua_state.cpp
@@ -778,8 +778,8 @@ bool lua_state::send_event_cancelable_string_inout(const char* event_name, const
                     out = s;
                 else if (more_out)
                     more_out->emplace_back(s);
-                lua_pop(L, 1);
             }
+            lua_pop(L, 1);
         }
     }
 
-- 
2.43.0


From 2df03eb3207759640175b89d3cf14dca9d6be63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:54 +0000
Subject: [PATCH 40/45] fix: prompt filters that change directory misdirected
 directory shortcuts

---
 clink/lua/src/prompt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/lua/src/prompt.cpp b/clink/lua/src/prompt.cpp
index 586a76e..20bb0ba 100644
--- a/clink/lua/src/prompt.cpp
+++ b/clink/lua/src/prompt.cpp
@@ -5,6 +5,7 @@
 #include "prompt.h"
 
 #include <core/base.h>
+#include <core/cwd_restorer.h>
 #include <core/str.h>
 #include <core/str_iter.h>
 #include <core/os.h>
@@ -451,6 +452,7 @@ bool prompt_filter::filter(const char* in, const char* rin, str_base& out, str_b
 
     rollback<bool> rb1(s_filtering, true);
     rollback<bool> rb2(s_transient_filtering, transient);
+    os::cwd_restorer cwd;
     if (m_lua.pcall(state, 5, 3) != 0)
     {
         lua_settop(state, top);
-- 
2.43.0


From d5e895e18388cdb98744599f6e21921c94cbf676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:54 +0000
Subject: [PATCH 41/45] fix: lines after the first from an onfilterinput
 handler were lost for 'cd -'

---
 clink/app/src/host/host.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/src/host/host.cpp b/clink/app/src/host/host.cpp
index 88dd34b..ad2567e 100644
--- a/clink/app/src/host/host.cpp
+++ b/clink/app/src/host/host.cpp
@@ -1360,7 +1360,6 @@ force_reload_lua:
 
     std::list<queued_line> queue;
 
-    if (!resolved)
     {
         str_moveable next;
         doskey_alias alias;
@@ -1368,6 +1367,7 @@ force_reload_lua:
         // Doskey is implemented on the server side of a ReadConsoleW() call
         // (i.e. in conhost.exe).  Commands separated by a "$T" are returned
         // one command at a time through successive calls to ReadConsoleW().
+        if (!resolved)
         {
             m_doskey.resolve(out.c_str(), alias);
             if (alias)
-- 
2.43.0


From a1e699034722bb9ae03e9caf70b8fc8ae9f3757a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:25 +0000
Subject: [PATCH 42/45] fix: a background task that ended as a line was entered
 crashed, and its callback never ran

The task's thread and the main thread could both detach the thread object,
which throws (or dereferences null) and terminates the host process.  And the
task's thread canceled the task's callback just before the main thread would
have run it, so e.g. a directory's name wasn't recolored once it was known to
be a directory.
---
 clink/lua/src/async_lua_task.cpp | 37 +++++++++++++++-----------------
 clink/lua/src/async_lua_task.h   |  2 --
 2 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/clink/lua/src/async_lua_task.cpp b/clink/lua/src/async_lua_task.cpp
index d0f170f..447a716 100644
--- a/clink/lua/src/async_lua_task.cpp
+++ b/clink/lua/src/async_lua_task.cpp
@@ -93,6 +93,9 @@ bool task_manager::add(const std::shared_ptr<async_lua_task>& task)
 //------------------------------------------------------------------------------
 void task_manager::on_idle(lua_state& lua)
 {
+    // Callbacks can add tasks, so collect the completed tasks first.
+    std::list<std::shared_ptr<async_lua_task>> completed;
+
     auto iter = m_map.begin();
     while (iter != m_map.end())
     {
@@ -102,15 +105,20 @@ void task_manager::on_idle(lua_state& lua)
         }
         else
         {
-            iter->second->run_callback(lua);
-            iter->second->detach();
-            auto callback = iter->second->take_callback();
-            if (callback)
-                m_unref_callbacks.push_back(std::move(callback));
+            completed.push_back(std::move(iter->second));
             iter = m_map.erase(iter);
         }
     }
 
+    for (auto& task : completed)
+    {
+        task->run_callback(lua);
+        task->cancel();
+        auto callback = task->take_callback();
+        if (callback)
+            m_unref_callbacks.push_back(std::move(callback));
+    }
+
     lua_State* state = lua.get_state();
     for (auto callback : m_unref_callbacks)
         luaL_unref(state, LUA_REGISTRYINDEX, callback->m_ref);
@@ -132,7 +140,7 @@ void task_manager::end_line()
         else
         {
             dbg_ignore_scope(snapshot, "task_manager");
-            iter->second->detach();
+            iter->second->cancel();
             auto callback = iter->second->take_callback();
             if (callback)
             {
@@ -203,7 +211,7 @@ void task_manager::shutdown(bool final)
 
     for (auto &iter : m_map)
     {
-        iter.second->detach();
+        iter.second->cancel();
         // Shutting down, so don't need to worry about Lua leaks.
         (void)iter.second->take_callback();
     }
@@ -299,19 +307,9 @@ void async_lua_task::wake_asyncyield() const
 //------------------------------------------------------------------------------
 void async_lua_task::start()
 {
+    // Nothing waits for the thread, and it may finish before this returns.
     auto task = shared_from_this();
-    m_thread = std::make_unique<std::thread>(&proc, std::move(task));
-}
-
-//------------------------------------------------------------------------------
-void async_lua_task::detach()
-{
-    cancel();
-    if (m_thread)
-    {
-        m_thread->detach();
-        m_thread.reset();
-    }
+    std::thread(&proc, std::move(task)).detach();
 }
 
 //------------------------------------------------------------------------------
@@ -319,7 +317,6 @@ void async_lua_task::proc(std::shared_ptr<async_lua_task> task)
 {
     task->do_work();
     task->m_is_complete = true;
-    task->detach();
     SetEvent(task->m_event);
     SetEvent(get_task_manager_event());
 }
diff --git a/clink/lua/src/async_lua_task.h b/clink/lua/src/async_lua_task.h
index ad1b952..af0e3cc 100644
--- a/clink/lua/src/async_lua_task.h
+++ b/clink/lua/src/async_lua_task.h
@@ -72,13 +72,11 @@ protected:
 
 private:
     void                    start();
-    void                    detach();
     bool                    is_run_until_complete() const { return m_run_until_complete; }
     static void             proc(std::shared_ptr<async_lua_task> task);
 
 private:
     HANDLE                  m_event;
-    std::unique_ptr<std::thread> m_thread;
     str_moveable            m_key;
     str_moveable            m_src;
     async_yield_lua*        m_asyncyield = nullptr;
-- 
2.43.0


From e71741d5c43b2fa76bb4b26d6687402a33e7aefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:24 +0000
Subject: [PATCH 43/45] fix: console.sendterminalrequest never got the answer
 to a request that isn't CSI, and corrupted memory in a key binding

The test for the end of a non-CSI answer was inverted.  And while a multi-key
sequence is being dispatched, testing whether the answer's ESC is bound in the
partial sequence's keymap disposed of the sequence that was being dispatched.
---
 clink/terminal/src/win_terminal_in.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index 3125e31..1393511 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -760,12 +760,12 @@ int32 win_terminal_in::peek()
     return terminal_in::input_none;
 }
 
-static bool is_final_byte(const char* final, const char* candidate)
+static bool is_final_byte(const char* final, const char* begin, const char* candidate)
 {
     if (final)
         return (*candidate == *final);
     else
-        return (!(*candidate == 0x07) && !(*candidate == '\\' && candidate[-1] == 27));
+        return (*candidate == 0x07 || (*candidate == '\\' && candidate > begin && candidate[-1] == 27));
 }
 
 static bool is_matching_response(const str_base& input, const char* prefix, const char* final, str_base& out, size_t& begin_offset, size_t& end_offset)
@@ -804,7 +804,7 @@ static bool is_matching_response(const str_base& input, const char* prefix, cons
         if (matched)
         {
             const char* last = code.get_pointer() + code.get_length() - 1;
-            if (!is_final_byte(final, last))
+            if (!is_final_byte(final, code.get_pointer(), last))
                 matched = nullptr;
         }
 
@@ -895,6 +895,10 @@ bool win_terminal_in::send_terminal_request(const char* request, const char* pre
     assert(!s_sending_terminal_request);
     rollback<bool> rb_str(s_sending_terminal_request, true);
 
+    // Read everything; whether keys are bound is tested when the records are
+    // processed again.
+    rollback<key_tester*> rb_keys(m_keys, nullptr);
+
     // Print the request.
     DWORD written;
     wstr<16> tmp(request);
@@ -943,7 +947,7 @@ bool win_terminal_in::send_terminal_request(const char* request, const char* pre
 
             correlation.char_count = input.length() - correlation.stream_index;
 
-            if (input.length() && is_final_byte(final, input.c_str() + input.length() - 1))
+            if (input.length() && is_final_byte(final, input.c_str(), input.c_str() + input.length() - 1))
             {
                 size_t begin_offset;
                 size_t end_offset;
-- 
2.43.0


From 20fe95b58849b67f5a22c8066d8b48dc61c0e101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:24 +0000
Subject: [PATCH 44/45] fix: keys typed while a coroutine asked the terminal
 something got stuck or out of order

console.sendterminalrequest leaves the keys that it reads in the pending
records, but when that happens in an idle callback then the outer
read_console kept waiting for console input, and processed that first.
---
 clink/terminal/src/win_terminal_in.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index 1393511..ce7ac4e 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -1270,6 +1270,19 @@ void win_terminal_in::read_console(input_idle* callback, DWORD _timeout, bool pe
                 // input breaks filter_unbound_input().
                 if (buffer_count != m_buffer_count)
                     return;
+
+                // Likewise if any pending records were left by the nested
+                // reentrant call; they precede any input still in the console.
+                if (!m_pending_records.empty())
+                {
+                    if (!peek)
+                    {
+                        const INPUT_RECORD record = m_pending_records.back();
+                        m_pending_records.pop_back();
+                        process_record(record);
+                    }
+                    return;
+                }
             }
 
             if (has_mode)
-- 
2.43.0


From 4bd514911c049c720cbe4e5611bc60d888505913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:24 +0000
Subject: [PATCH 45/45] fix: a surrogate pair typed while waiting for the
 terminal's answer was garbled

---
 clink/terminal/src/win_terminal_in.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index ce7ac4e..ccf4ab6 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -969,7 +969,7 @@ bool win_terminal_in::send_terminal_request(const char* request, const char* pre
                     assert(begin_erasure < correlations.size());
                     if (begin_erasure < correlations.size())
                     {
-                        assert(correlations.size() == m_processed_records.size());
+                        assert(correlations.size() <= m_processed_records.size());
                         const size_t index_erase = correlations[begin_erasure].record_index;
                         for (size_t ii = begin_erasure; ii < correlations.size(); ++ii)
                         {
@@ -1150,6 +1150,14 @@ bool win_terminal_in::process_record(const INPUT_RECORD& record)
     return (m_buffer_count > buffer_count) || ret;
 }
 
+//------------------------------------------------------------------------------
+static bool is_lead_surrogate(const INPUT_RECORD& record)
+{
+    return (record.EventType == KEY_EVENT &&
+            record.Event.KeyEvent.bKeyDown &&
+            IS_HIGH_SURROGATE(record.Event.KeyEvent.uChar.UnicodeChar));
+}
+
 //------------------------------------------------------------------------------
 void win_terminal_in::read_console(input_idle* callback, DWORD _timeout, bool peek)
 {
@@ -1318,6 +1326,11 @@ void win_terminal_in::read_console(input_idle* callback, DWORD _timeout, bool pe
                 m_pending_records.push_back(record);
                 return;
             }
+
+            // A lead surrogate isn't input until its trail surrogate arrives,
+            // but both are needed to process the input again.
+            if (s_sending_terminal_request && is_lead_surrogate(record))
+                m_processed_records.push_back(record);
         }
         else
         {
-- 
2.43.0

