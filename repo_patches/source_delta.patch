From adb0593651e0bdac8b9c947c57ec60444d82352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:52 +0000
Subject: [PATCH 01/52] fix: read and zero the right range of blocks that are
 not first in their page

get_block_data and write_null_from subtracted the block's offset inside the
page from a length that is relative to the block, so with more than one block
per page reads returned stale bytes and truncation left old bytes behind.
---
 libs/libpcache/src/engine/page/page.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index 076460a..c0fd72e 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -110,9 +110,8 @@ void Page::get_block_data (int block_id, char* buffer, int read_to_max_index) {
 
     pair<int, int> offsets = get_block_offsets (block_id);
     int off_min            = offsets.first;
-    int off_max            = read_to_max_index + 1;
 
-    memcpy (buffer, this->data + off_min, off_max - off_min);
+    memcpy (buffer, this->data + off_min, read_to_max_index + 1);
 }
 
 pair<int, int> Page::get_block_offsets (int block_id) {
@@ -197,11 +196,11 @@ void Page::write_null_from (int block_id, int from_offset) {
     //             __func__,
     //             block_id,
     //            off_first + from_offset,
-    //             (int)this->config->IO_BLOCK_SIZE - off_first - from_offset);
+    //             (int)this->config->IO_BLOCK_SIZE - from_offset);
 
     memset (this->data + off_first + from_offset,
             0,
-            this->config->IO_BLOCK_SIZE - off_first - from_offset);
+            this->config->IO_BLOCK_SIZE - from_offset);
 }
 
 void Page::remove_block (int block_id) {
-- 
2.43.0


From 21786386ae2fe8821a8f8b7285d44853e85b2504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:52 +0000
Subject: [PATCH 02/52] fix: store data in the first block of a page when
 io_block_size is 1

The block at offsets (0, 0) was taken for an unallocated one and its data was
silently dropped.
---
 libs/libpcache/src/engine/page/page.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index c0fd72e..51fb60e 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -133,7 +133,7 @@ bool Page::update_block_data (int block_id, char* new_data, size_t data_length,
     // block exists, update data
     int off_min = block_offsets.first;
 
-    if (block_offsets.first >= 0 && block_offsets.second > 0) {
+    if (block_offsets.first >= 0 && block_offsets.second >= block_offsets.first) {
 
         assert (data_length <= this->config->IO_BLOCK_SIZE);
 
-- 
2.43.0


From 4b20c19c5f13ed760a55f01d63999ab6724a090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:26 +0000
Subject: [PATCH 03/52] fix: keep the per-owner list of pages with free space
 accurate

The list was copied instead of referenced, so pages never left it, and eviction
and truncation left stale entries behind. With more than one block per page a
new block could be given a full page or a page of another file. Truncation also
gave away pages that still held other blocks of the file and never returned
dirty ones.
---
 .../engine/backends/custom/custom_cache.hpp   |  8 ++++
 .../engine/backends/custom/custom_cache.cpp   | 37 ++++++++++++++-----
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
index 361977b..2825d0d 100644
--- a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
+++ b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
@@ -122,6 +122,14 @@ class CustomCacheEngine : public PageCacheEngine {
      */
     pair<int, Page*> _get_next_free_page (string owner_id);
 
+    /**
+     * @brief Removes a page from the list of pages with free space of an owner.
+     *
+     * @param owner_id the content id
+     * @param page_id the page id
+     */
+    void _remove_owner_free_page (string owner_id, int page_id);
+
     /**
      * @brief Manages the LRU queue for a WRITE operation
      *
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 68ec7d9..f59381d 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -125,7 +125,7 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
     if (this->owner_pages_mapping.find (owner_id) != this->owner_pages_mapping.end ()) {
 
-        auto free_pages = this->owner_free_pages_mapping.at (owner_id);
+        auto& free_pages = this->owner_free_pages_mapping.at (owner_id);
 
         if (free_pages.size () > 0) {
 
@@ -170,9 +170,10 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
         if (this->owner_pages_mapping.find (old_owner) != this->owner_pages_mapping.end ()) {
             this->owner_pages_mapping.at (old_owner).erase (replace_page_id);
-            // todo: if in free pages remove from there
         }
 
+        _remove_owner_free_page (old_owner, replace_page_id);
+
         if (page_to_reset->is_page_dirty ())
             page_to_reset->sync_data ();
 
@@ -189,6 +190,17 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
     return make_pair (-1, nullptr);
 }
 
+void CustomCacheEngine::_remove_owner_free_page (string owner_id, int page_id) {
+
+    auto it = this->owner_free_pages_mapping.find (owner_id);
+
+    if (it != this->owner_free_pages_mapping.end ()) {
+
+        auto& pages = it->second;
+        pages.erase (std::remove (pages.begin (), pages.end (), page_id), pages.end ());
+    }
+}
+
 void CustomCacheEngine::_apply_lru_after_page_visitation_on_WRITE (int visited_page_id) {
 
     lock_guard<mutex> lr (this->lru_management_mtx);
@@ -609,26 +621,33 @@ bool CustomCacheEngine::truncate_cached_blocks (string content_owner_id,
 
         Page* page = _get_page_ptr (page_id);
 
-        if (page->is_page_owner (content_owner_id)) {
+        if (page != nullptr && page->is_page_owner (content_owner_id) &&
+            page->contains_block (blk_id)) {
 
             // std::printf ("%s: %s is page %d owner\n", __func__, content_owner_id.c_str (),
             // page_id);
 
             if (blk_id == from_block_id && index_inside_block > 0) {
 
-                if (page->contains_block (from_block_id)) {
-                    page->make_block_readable_to (from_block_id, index_inside_block - 1);
-                    page->write_null_from (from_block_id, index_inside_block);
-                }
+                page->make_block_readable_to (from_block_id, index_inside_block - 1);
+                page->write_null_from (from_block_id, index_inside_block);
 
             } else {
 
                 page->remove_block (blk_id);
 
-                this->owner_pages_mapping.at (content_owner_id).erase (page_id);
                 this->owner_ordered_pages_mapping.at (content_owner_id).erase (blk_id);
 
-                if (not page->is_page_dirty ()) {
+                _remove_owner_free_page (content_owner_id, page_id);
+
+                if (not page->allocated_block_ids.empty ()) {
+
+                    // the page still holds other blocks, but now has space left
+                    this->owner_free_pages_mapping.at (content_owner_id).push_back (page_id);
+
+                } else {
+
+                    this->owner_pages_mapping.at (content_owner_id).erase (page_id);
 
                     // add page to free pages...
                     this->free_pages.push_back (page_id);
-- 
2.43.0


From c4cc91db6118a53258cb90d7fa9c09ba188ec3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:26 +0000
Subject: [PATCH 04/52] fix: reusing an evicted page does not forget another
 block of the old owner

The blocks of an evicted page are already removed from the old owner's map; the
extra erase used the new owner's block id and dropped an unrelated block, which
was then never synced again.
---
 libs/libpcache/src/engine/backends/custom/custom_cache.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index f59381d..ea4342d 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -274,7 +274,6 @@ void CustomCacheEngine::_update_owner_pages (string new_owner,
         if (this->owner_pages_mapping.find (real_owner) != this->owner_pages_mapping.end ()) {
 
             this->owner_pages_mapping.at (real_owner).erase (page_id);
-            this->owner_ordered_pages_mapping.at (real_owner).erase (block_id);
 
             if (this->owner_pages_mapping.at (real_owner).empty ()) {
 
-- 
2.43.0


From 9dc0d05b40cb81a9b9eaf2553e8d24eed33cadf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:46 +0000
Subject: [PATCH 05/52] fix: write evicted dirty pages back to the file that
 owns them

Pages are owned by inode numbers, but eviction opened the inode number as a
path, so the open failed and unsynced data of evicted pages was lost. Resolve
the owner to one of its paths, keep the page when it cannot be written back,
use 64-bit offsets, and make the readable end of a block known to the page
before it can be evicted.
---
 libs/libpcache/include/cache/cache.hpp        | 23 ++++++++++++++
 .../include/cache/engine/page/page.hpp        |  3 +-
 .../include/cache/engine/page_cache.hpp       | 18 +++++++++++
 libs/libpcache/src/cache.cpp                  | 28 ++++++++++++++---
 .../engine/backends/custom/custom_cache.cpp   | 11 ++++---
 libs/libpcache/src/engine/page/page.cpp       | 30 +++++++++++--------
 6 files changed, 91 insertions(+), 22 deletions(-)

diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index 68dce2d..a74b409 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -42,6 +42,14 @@ class Cache {
      */
     std::shared_mutex lock_cache_mtx;
 
+    /**
+     * @brief Protects the file names to inodes mapping. Modifying the mapping requires this
+     *        lock and the global one, reading it requires any of them. No other lock is
+     *        requested while holding it.
+     *
+     */
+    std::mutex mapping_mtx;
+
   private:
     /**
      * @brief Maps filenames to the corresponding inodes.
@@ -79,6 +87,21 @@ class Cache {
      */
     Item* _get_content_ptr (string cid);
 
+    /**
+     * @brief Maps a file name to an inode
+     *
+     * @param path file name
+     * @param inode corresponding inode
+     */
+    void _set_inode_mapping (string path, string inode);
+
+    /**
+     * @brief Removes a file name from the mapping
+     *
+     * @param path file name
+     */
+    void _erase_inode_mapping (string path);
+
     /**
      * @brief Gets the readable offsets associated with an Item block
      *
diff --git a/libs/libpcache/include/cache/engine/page/page.hpp b/libs/libpcache/include/cache/engine/page/page.hpp
index b087606..ec41e12 100644
--- a/libs/libpcache/include/cache/engine/page/page.hpp
+++ b/libs/libpcache/include/cache/engine/page/page.hpp
@@ -176,10 +176,11 @@ class Page {
     /**
      * @brief Writes page data to the underlying disk.
      *
+     * @param path a path of the file that owns this page
      * @return true page was synced.
      * @return false error ocurred
      */
-    bool sync_data ();
+    bool sync_data (string path);
 
     /**
      * @brief Checks if a page has the diry flag on.
diff --git a/libs/libpcache/include/cache/engine/page_cache.hpp b/libs/libpcache/include/cache/engine/page_cache.hpp
index d05b700..31fd548 100644
--- a/libs/libpcache/include/cache/engine/page_cache.hpp
+++ b/libs/libpcache/include/cache/engine/page_cache.hpp
@@ -10,6 +10,7 @@
 #ifndef CACHE_ENGINE_HPP
 #define CACHE_ENGINE_HPP
 
+#include <functional>
 #include <map>
 #include <string>
 #include <sys/types.h>
@@ -172,6 +173,23 @@ class PageCacheEngine {
      *
      */
     virtual vector<tuple<int, pair<int, int>, int>> get_dirty_blocks_info (string owner) = 0;
+
+    /**
+     * @brief Sets the function that finds the current path of a content id, which is needed to
+     * write back pages outside of a sync request. It returns an empty string if there is none.
+     *
+     * @param resolver the function
+     */
+    void set_owner_path_resolver (std::function<string (string)> resolver) {
+        this->owner_path_resolver = resolver;
+    }
+
+  protected:
+    /**
+     * @brief Finds the current path of a content id
+     *
+     */
+    std::function<string (string)> owner_path_resolver = [] (string owner) { return owner; };
 };
 
 } // namespace cache::engine
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 08d79e3..e0f25d4 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -35,6 +35,14 @@ Cache::Cache (cache::config::Config* cache_config, PageCacheEngine* choosenEngin
     this->cache_config = cache_config;
     this->contents.reserve (1000);
     this->file_inode_mapping.reserve (1000);
+
+    this->engine->set_owner_path_resolver ([this] (string inode) {
+        std::lock_guard<std::mutex> lock (mapping_mtx);
+        for (auto const& it : this->file_inode_mapping)
+            if (it.second == inode)
+                return it.first;
+        return string ("");
+    });
 }
 
 Cache::~Cache () {
@@ -81,7 +89,7 @@ string Cache::get_original_inode (string path) {
 void Cache::insert_inode_mapping (string path, string inode, bool increase) {
 
     lock_guard<std::shared_mutex> lock (lock_cache_mtx);
-    this->file_inode_mapping[path] = inode;
+    _set_inode_mapping (path, inode);
 
     if (increase) {
         Metadata* oldmeta = get_content_metadata (inode);
@@ -93,6 +101,18 @@ void Cache::insert_inode_mapping (string path, string inode, bool increase) {
     }
 }
 
+void Cache::_set_inode_mapping (string path, string inode) {
+
+    std::lock_guard<std::mutex> lock (mapping_mtx);
+    this->file_inode_mapping[path] = inode;
+}
+
+void Cache::_erase_inode_mapping (string path) {
+
+    std::lock_guard<std::mutex> lock (mapping_mtx);
+    this->file_inode_mapping.erase (path);
+}
+
 bool Cache::has_content_cached (string cid) {
 
     if (not this->contents.empty ())
@@ -409,8 +429,8 @@ bool Cache::rename_item (string old_cid, string new_cid) {
             to_remove_inode = this->file_inode_mapping.at (new_cid);
         }
 
-        this->file_inode_mapping.erase (old_cid);
-        this->file_inode_mapping[new_cid] = inode;
+        _erase_inode_mapping (old_cid);
+        _set_inode_mapping (new_cid, inode);
 
         if (has_content_cached (to_remove_inode)) {
 
@@ -461,7 +481,7 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
 
     lockItem (owner);
 
-    this->file_inode_mapping.erase (string (path));
+    _erase_inode_mapping (string (path));
 
     Item* item = _get_content_ptr (owner);
 
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index ea4342d..fb14bf3 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -159,6 +159,12 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
         string old_owner = page_to_reset->get_page_owner ();
 
+        // data that can not be written back must stay in the cache
+
+        if (page_to_reset->is_page_dirty () &&
+            !page_to_reset->sync_data (this->owner_path_resolver (old_owner)))
+            return make_pair (-1, nullptr);
+
         auto blocks = page_to_reset->allocated_block_ids.get_block_readable_offsets ();
 
         if (this->owner_ordered_pages_mapping.find (old_owner) !=
@@ -174,9 +180,6 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
         _remove_owner_free_page (old_owner, replace_page_id);
 
-        if (page_to_reset->is_page_dirty ())
-            page_to_reset->sync_data ();
-
         // cout << "[engine] _get_next_free_page: Resetting page '" <<
         // replace_page_id << "'...\n";
 
@@ -477,7 +480,7 @@ void CustomCacheEngine::make_block_readable_to_offset (string cid,
     std::unique_lock<std::shared_mutex> lock (lock_cache_mtx);
 
     Page* page_ptr = _get_page_ptr (page_id);
-    if (page_ptr->is_page_owner (cid)) {
+    if (page_ptr->is_page_owner (cid) && page_ptr->contains_block (block_id)) {
         page_ptr->make_block_readable_to (block_id, offset);
     }
 }
diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index 51fb60e..abd8cce 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -141,6 +141,13 @@ bool Page::update_block_data (int block_id, char* new_data, size_t data_length,
                                     off_min + off_start,
                                     off_min + off_start + data_length - 1);
 
+        if (data_length > 0) {
+
+            int last_index = off_start + data_length - 1;
+            if (last_index > this->allocated_block_ids.get_readable_to (block_id))
+                this->make_block_readable_to (block_id, last_index);
+        }
+
     } else
         return false;
 
@@ -151,30 +158,27 @@ bool Page::is_page_dirty () { return this->is_dirty; }
 
 void Page::set_page_as_dirty (bool dirty) { this->is_dirty = dirty; }
 
-bool Page::sync_data () {
+bool Page::sync_data (string path) {
 
-    char const* path;
-    path   = this->page_owner_id.c_str ();
-    int fd = open (path, O_WRONLY);
+    int fd = open (path.c_str (), O_WRONLY);
 
-    int should_write = 0, actually_wrote = 0;
+    if (fd < 0)
+        return false;
+
+    bool res = true;
 
     map<int, int> block_rdble_offs = this->allocated_block_ids.get_block_readable_offsets ();
 
     for (auto it = block_rdble_offs.begin (); it != block_rdble_offs.end (); ++it) {
         if (contains_block (it->first)) {
             pair<int, int> data_offsets = get_block_offsets (it->first);
-            int offset                  = it->first * this->config->IO_BLOCK_SIZE;
-            int total_bytes             = this->config->IO_BLOCK_SIZE;
-            if (it == prev (block_rdble_offs.end (), 1))
-                total_bytes = it->second + 1;
-            should_write += total_bytes;
-            actually_wrote += pwrite (fd, this->data + data_offsets.first, total_bytes, offset);
+            off_t offset                = (off_t)it->first * this->config->IO_BLOCK_SIZE;
+            ssize_t total_bytes         = it->second + 1;
+            if (pwrite (fd, this->data + data_offsets.first, total_bytes, offset) != total_bytes)
+                res = false;
         }
     }
 
-    int res = should_write == actually_wrote;
-
     if (res)
         this->is_dirty = false;
 
-- 
2.43.0


From 648a099f327f1d051806f9a291a1eae44cd93e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:39 +0000
Subject: [PATCH 06/52] fix: report failed write-backs of fsync instead of
 losing the data

sync_pages ignored failed or short opens, writes and truncates, marked the
blocks clean first and always reported success, so data that never reached the
disk was neither reported nor written by a later fsync. It also read past the
end of the map of dirty blocks.
---
 lazyfs/src/lazyfs.cpp                         |  2 +
 .../engine/backends/custom/custom_cache.hpp   |  2 +-
 .../include/cache/engine/page_cache.hpp       |  6 +--
 libs/libpcache/src/cache.cpp                  |  6 ++-
 .../engine/backends/custom/custom_cache.cpp   | 47 +++++++++++++------
 5 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 4709ff3..87dd58e 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1570,6 +1570,8 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
         res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, false, (char*)path)
                               : fsync (fi->fh);
 
+    if (res < 0)
+        return is_owner_cached ? res : -errno;
 
     this_ ()->trigger_crash_fault ("fsync", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("fsync", "after", path, "");
diff --git a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
index 2825d0d..9f76948 100644
--- a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
+++ b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
@@ -182,7 +182,7 @@ class CustomCacheEngine : public PageCacheEngine {
     void print_page_cache_engine ();
     double get_engine_usage ();
     bool remove_cached_blocks (string content_owner_id);
-    bool sync_pages (string owner, off_t size, char* orig_path);
+    int sync_pages (string owner, off_t size, char* orig_path);
     void make_block_readable_to_offset (string cid, int page_id, int block_id, int offset);
     bool rename_owner_pages (string old_owner, string new_owner);
     bool truncate_cached_blocks (string content_owner_id,
diff --git a/libs/libpcache/include/cache/engine/page_cache.hpp b/libs/libpcache/include/cache/engine/page_cache.hpp
index 31fd548..c64f951 100644
--- a/libs/libpcache/include/cache/engine/page_cache.hpp
+++ b/libs/libpcache/include/cache/engine/page_cache.hpp
@@ -137,10 +137,10 @@ class PageCacheEngine {
      * @param owner the content id
      * @param size final file size
      * @param orig_path original file name to sync data
-     * @return true the pages were synced
-     * @return false the content was not found
+     * @return 0 if the pages were synced, otherwise a negative error code. Blocks that could not be
+     * written remain unsynced.
      */
-    virtual bool sync_pages (string owner, off_t size, char* orig_path) = 0;
+    virtual int sync_pages (string owner, off_t size, char* orig_path) = 0;
 
     /**
      * @brief Renames the content associated with an owner to the new owner
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index e0f25d4..a85048f 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -393,9 +393,11 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
     off_t last_size = get_content_metadata (owner)->size;
 
     res = this->engine->sync_pages (owner, last_size, orig_path);
-    _get_content_ptr (owner)->set_data_sync_flag (true);
 
-    if (not only_sync_data) {
+    if (res == 0)
+        _get_content_ptr (owner)->set_data_sync_flag (true);
+
+    if (res == 0 && not only_sync_data) {
 
         // sync metadata
 
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index fb14bf3..4778827 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -11,6 +11,7 @@
 #include <assert.h>
 #include <cache/constants/constants.hpp>
 #include <cache/engine/backends/custom/custom_cache.hpp>
+#include <cerrno>
 #include <chrono>
 #include <fcntl.h>
 #include <iostream>
@@ -485,17 +486,21 @@ void CustomCacheEngine::make_block_readable_to_offset (string cid,
     }
 }
 
-bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
+int CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
 
     std::unique_lock<std::shared_mutex> lock (lock_cache_mtx);
 
     int fd = open (orig_path, O_WRONLY);
 
+    if (fd < 0)
+        return -errno;
+
+    int res = 0;
+
     // std::printf ("\tengine: (fsync) %s opened descriptor %d\n", owner.c_str (), fd);
 
     if (this->owner_pages_mapping.find (owner) != this->owner_pages_mapping.end ()) {
 
-        off_t wrote_bytes = 0;
         off_t page_streak = 0;
 
         auto& iterate_blocks = this->owner_ordered_pages_mapping.at (owner);
@@ -506,23 +511,21 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
             auto pptr = std::get<1> (cit->second);
             if (pptr->is_page_dirty ()) {
                 new_iterate_blocks.insert ({cit->first, cit->second});
-                pptr->set_page_as_dirty (false);
             }
         }
 
-        off_t page_streak_last_offset =
-            (new_iterate_blocks.begin ()->first) * this->config->IO_BLOCK_SIZE;
+        off_t page_streak_last_offset = 0;
 
         vector<tuple<int, Page*, pair<int, int>, bool>> page_chunk;
         page_chunk.reserve (new_iterate_blocks.size ());
 
         for (auto it = new_iterate_blocks.begin (); it != new_iterate_blocks.end (); it++) {
 
-            auto current_block_id     = it->first;
-            auto const& next_block_id = std::next (it, 1)->first;
+            auto current_block_id = it->first;
+            auto next_it          = std::next (it, 1);
 
-            if ((page_streak < (__IOV_MAX - 1)) && (it != prev (new_iterate_blocks.end (), 1)) &&
-                (current_block_id == (next_block_id - 1))) {
+            if ((page_streak < (__IOV_MAX - 1)) && (next_it != new_iterate_blocks.end ()) &&
+                (current_block_id == (next_it->first - 1))) {
 
                 page_streak++;
 
@@ -535,6 +538,7 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
                 page_chunk.push_back (it->second);
 
                 struct iovec iov[page_streak];
+                ssize_t total_bytes = 0;
 
                 page_streak_last_offset =
                     (current_block_id - page_streak + 1) * this->config->IO_BLOCK_SIZE;
@@ -556,11 +560,15 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
                         iov[p_id].iov_len = this->config->IO_BLOCK_SIZE;
                     }
 
-                    // mark block as clean
-                    std::get<3> (iterate_blocks.at (streak_block)) = true;
+                    total_bytes += iov[p_id].iov_len;
                 }
 
-                wrote_bytes += pwritev (fd, iov, page_streak, page_streak_last_offset);
+                ssize_t wrote_bytes = pwritev (fd, iov, page_streak, page_streak_last_offset);
+
+                if (wrote_bytes != total_bytes) {
+                    res = wrote_bytes < 0 ? -errno : -EIO;
+                    break;
+                }
 
                 page_streak = 0;
 
@@ -569,15 +577,26 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
                 page_streak_last_offset = (current_block_id + 1) * this->config->IO_BLOCK_SIZE;
             }
         }
+
+        if (res == 0) {
+
+            // mark blocks as clean
+
+            for (auto const& it : new_iterate_blocks) {
+                std::get<1> (it.second)->set_page_as_dirty (false);
+                std::get<3> (iterate_blocks.at (it.first)) = true;
+            }
+        }
     }
 
-    if (ftruncate (fd, size) < 0) {
+    if (res == 0 && ftruncate (fd, size) < 0) {
+        res = -errno;
         spdlog::info ("ftruncate: failed");
     }
 
     close (fd);
 
-    return 0;
+    return res;
 }
 
 bool CustomCacheEngine::rename_owner_pages (string old_owner, string new_owner) {
-- 
2.43.0


From 2b47c92890064baa48a87722cab3601fab218238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:57 +0000
Subject: [PATCH 07/52] fix: fsync carries the file times to the file itself

The owner is an inode number, so utimes was applied to a path that does not
exist; it also dropped the nanoseconds.
---
 libs/libpcache/src/cache.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index a85048f..6e85e0e 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -11,11 +11,14 @@
 #include <cache/cache.hpp>
 #include <cache/constants/constants.hpp>
 #include <cache/item/item.hpp>
+#include <cerrno>
 #include <chrono>
+#include <fcntl.h>
 #include <list>
 #include <map>
 #include <mutex>
 #include <spdlog/spdlog.h>
+#include <sys/stat.h>
 #include <sys/syscall.h>
 #include <sys/time.h>
 #include <sys/xattr.h>
@@ -403,12 +406,10 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
 
         Metadata* meta = _get_content_ptr (owner)->get_metadata ();
 
-        struct timeval times[2];
-        TIMESPEC_TO_TIMEVAL (&times[0], &(meta->atim));
-        TIMESPEC_TO_TIMEVAL (&times[1], &(meta->mtim));
+        struct timespec times[2] = {meta->atim, meta->mtim};
 
-        const char* path = owner.c_str ();
-        utimes (path, times);
+        if (utimensat (AT_FDCWD, orig_path, times, AT_SYMLINK_NOFOLLOW) < 0)
+            res = -errno;
     }
 
     unlockItem (owner);
-- 
2.43.0


From b62eef99a02e5b67ffb892f3c9214bc4cb663851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:57 +0000
Subject: [PATCH 08/52] fix: truncate drops the cached blocks of the file

Contents are cached by inode, so truncate_item called with the path never found
them: the truncated bytes stayed in the cache and came back when the file grew
again, and kept using pages.
---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 87dd58e..13a877d 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1817,7 +1817,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
 
     } else if (truncate_size < previous_metadata->size) {
 
-        this_ ()->FSCache->truncate_item (owner, truncate_size);
+        this_ ()->FSCache->truncate_item (inode, truncate_size);
     }
 
     // todo: update file size
-- 
2.43.0


From a2e98be100d835d4448b5f75efcec453ef3ca7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:57 +0000
Subject: [PATCH 09/52] fix: open the underlying file with the requested access
 mode

Opening with O_TRUNC dropped read access, so reads of such a handle failed, and
O_APPEND was kept, so positional writes to the underlying file (when the cache
is full) went to its end whatever their offset. O_DIRECT would require aligned
buffers that the cache does not use.
---
 lazyfs/src/lazyfs.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 13a877d..99e111f 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -818,9 +818,10 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
 
     int res;
 
-    int access_tmp = fi->flags;
-    if (fi->flags & O_TRUNC)
-        access_tmp = O_WRONLY;
+    // truncation is done in the cache, and the underlying file has to honour the offsets and
+    // alignments used by the cache
+
+    int access_tmp = fi->flags & ~(O_TRUNC | O_APPEND | O_DIRECT);
 
     res = open (path, access_tmp);
 
@@ -869,7 +870,7 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
 
     int res;
 
-    res = open (path, fi->flags, mode);
+    res = open (path, fi->flags & ~(O_APPEND | O_DIRECT), mode);
 
     if (res == -1)
         return -errno;
-- 
2.43.0


From 630e44dba5d6f5fd6bacc18e3343f090bfc5c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:57 +0000
Subject: [PATCH 10/52] fix: reads return the bytes of the file up to its end,
 and nothing else

A read that reached the end of the file could return bytes beyond it, the
zeroing of a partly filled block wrote past the end of the caller's buffer, a
failed pread moved the buffer position backwards, data missing in the underlying
file shortened the read instead of being zero, and a block evicted meanwhile was
skipped.
---
 lazyfs/src/lazyfs.cpp | 177 +++++++++++++++---------------------------
 1 file changed, 62 insertions(+), 115 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 99e111f..e8d81bb 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1332,12 +1332,8 @@ int LazyFS::lfs_read (const char* path,
 
     // ----------------------------------------------------------------------------------
 
-    off_t blk_low        = offset / IO_BLOCK_SIZE;
-    off_t blk_high       = (offset + size - 1) / IO_BLOCK_SIZE;
-    int fd_caching       = fd;
-    off_t BUF_ITERATOR   = 0;
-    off_t BYTES_LEFT     = size;
-    off_t data_allocated = 0;
+    int fd_caching     = fd;
+    off_t BUF_ITERATOR = 0;
 
     char read_buffer[IO_BLOCK_SIZE];
 
@@ -1382,61 +1378,65 @@ int LazyFS::lfs_read (const char* path,
         // std::printf ("\tread: file has %d bytes\n", (int)meta.size);
     }
 
-    if (offset > (meta.size - 1))
-        return 0;
+    // Reads end at the end of the file
 
-    // ---------------------------------------------------------------------------------
+    if (offset >= meta.size)
+        size = 0;
+    else if ((off_t)size > meta.size - offset)
+        size = meta.size - offset;
 
-    off_t last_pread_chunk_size   = 0;
-    off_t last_pread_chunk_offset = offset;
+    off_t blk_low  = offset / IO_BLOCK_SIZE;
+    off_t blk_high = size > 0 ? (off_t)((offset + size - 1) / IO_BLOCK_SIZE) : blk_low - 1;
 
-    off_t blk_readable_from = 0;
-    off_t blk_readable_to   = 0;
+    // ---------------------------------------------------------------------------------
 
-    for (off_t CURR_BLK_IDX = blk_low; CURR_BLK_IDX <= blk_high; CURR_BLK_IDX++) {
+    res = 0;
 
-        if ((CURR_BLK_IDX * IO_BLOCK_SIZE) > meta.size)
-            break;
+    off_t last_pread_chunk_size = 0;
 
-        blk_readable_from = (CURR_BLK_IDX == blk_low) ? (offset % IO_BLOCK_SIZE) : 0;
+    // Reads the last bytes that are not cached from the underlying file. What is not there
+    // was never written, so it is read as zeros.
 
-        if (CURR_BLK_IDX == blk_high)
-            blk_readable_to = ((offset + size - 1) % IO_BLOCK_SIZE);
-        else if ((CURR_BLK_IDX == blk_low) && ((offset + size - 1) < IO_BLOCK_SIZE))
-            blk_readable_to = offset + size - 1;
-        else if (CURR_BLK_IDX < blk_high)
-            blk_readable_to = IO_BLOCK_SIZE - 1;
-        else if (CURR_BLK_IDX == blk_high)
-            blk_readable_to = size - data_allocated - 1;
+    auto read_last_chunk = [&] () {
+        while (last_pread_chunk_size > 0) {
 
-        if (this_ ()->FSCache->is_block_cached (inode, CURR_BLK_IDX)) {
+            ssize_t pread_res =
+                pread (fd_caching, buf + BUF_ITERATOR, last_pread_chunk_size, offset + BUF_ITERATOR);
 
-            if (last_pread_chunk_size > 0) {
+            if (pread_res < 0)
+                return -errno;
 
-                int pread_res = pread (fd_caching,
-                                       buf + BUF_ITERATOR,
-                                       last_pread_chunk_size,
-                                       last_pread_chunk_offset);
+            if (pread_res == 0) {
+                memset (buf + BUF_ITERATOR, 0, last_pread_chunk_size);
+                pread_res = last_pread_chunk_size;
+            }
 
-                BUF_ITERATOR += pread_res;
-                BYTES_LEFT -= pread_res;
+            BUF_ITERATOR += pread_res;
+            last_pread_chunk_size -= pread_res;
+        }
+        return 0;
+    };
 
-                last_pread_chunk_size   = 0;
-                last_pread_chunk_offset = (CURR_BLK_IDX + 1) * IO_BLOCK_SIZE;
+    off_t blk_readable_from = 0;
+    off_t blk_readable_to   = 0;
 
-            } else if (CURR_BLK_IDX < blk_high) {
+    for (off_t CURR_BLK_IDX = blk_low; CURR_BLK_IDX <= blk_high; CURR_BLK_IDX++) {
 
-                last_pread_chunk_offset = (CURR_BLK_IDX + 1) * IO_BLOCK_SIZE;
-            }
+        /*
+            > Calculate readable block offsets:
 
-            if (BYTES_LEFT <= 0) {
+            For each block, depending on the 'offset' and 'size' provided,
+            the read is bounded from an index to another in each block.
+            Each pair of offsets varies from [0 <-> IO_BLOCK_SIZE].
+        */
 
-                break;
-            }
+        blk_readable_from = (CURR_BLK_IDX == blk_low) ? (offset % IO_BLOCK_SIZE) : 0;
+        blk_readable_to =
+            (CURR_BLK_IDX == blk_high) ? ((offset + size - 1) % IO_BLOCK_SIZE) : IO_BLOCK_SIZE - 1;
 
-            /*
-                > Block is cached, so buffer was filled with the requested data:
-            */
+        off_t blk_bytes = blk_readable_to - blk_readable_from + 1;
+
+        if (this_ ()->FSCache->is_block_cached (inode, CURR_BLK_IDX)) {
 
             auto GET_BLOCKS_RES =
                 this_ ()->FSCache->get_data_blocks (inode, {{CURR_BLK_IDX, read_buffer}});
@@ -1444,95 +1444,42 @@ int LazyFS::lfs_read (const char* path,
             if ((GET_BLOCKS_RES.find (CURR_BLK_IDX) != GET_BLOCKS_RES.end ()) and
                 GET_BLOCKS_RES.at (CURR_BLK_IDX).first) {
 
-                pair<int, int> readable_offsets = GET_BLOCKS_RES.at (CURR_BLK_IDX).second;
-
-                off_t max_readable_offset = readable_offsets.second;
-
-                off_t read_to = std::min (max_readable_offset, blk_readable_to);
-
-                memcpy (buf + BUF_ITERATOR,
-                        read_buffer + blk_readable_from,
-                        (read_to - blk_readable_from) + 1);
-
-                BUF_ITERATOR += (read_to - blk_readable_from) + 1;
-                BYTES_LEFT -= (read_to - blk_readable_from) + 1;
-
-                if (read_to < (IO_BLOCK_SIZE - 1) && CURR_BLK_IDX < blk_high) {
-
-                    memset (buf + BUF_ITERATOR + read_to, 0, IO_BLOCK_SIZE - read_to);
-                }
-
-                data_allocated += (read_to - blk_readable_from) + 1;
-
-            } else {
-
-                // todo: there could be a race condition between checking if the block is cached
-                // todo: and retrieving its data, so either lock the operation or go to the else
-                // todo: case
-
-                // goto try_pread;
-            }
-
-        } else {
-
-            // todo:
-            // try_pread:
-
-            /*
-                > Block is not cached, cache it first: If it fails, call pread if
-               needed.
-            */
-
-            bool needs_pread = meta.size > CURR_BLK_IDX * IO_BLOCK_SIZE;
-
-            if (fd_caching > 0) {
-
                 /*
-                    > Calculate readable block offsets:
-
-                    For each block, depending on the 'offset' and 'size' provided,
-                    the write is bounded from an index to another in each block.
-                    Each pair of offsets varies from [0 <-> IO_BLOCK_SIZE].
+                    > Block is cached, so buffer was filled with the requested data:
                 */
 
-                // ----------------------------------------------------------------------------------
-
-                data_allocated += blk_readable_to - blk_readable_from + 1;
-
-                // ----------------------------------------------------------------------------------
-
-                if (needs_pread)
-                    last_pread_chunk_size += blk_readable_to - blk_readable_from + 1;
+                if ((res = read_last_chunk ()) < 0)
+                    break;
 
-            } else {
+                memcpy (buf + BUF_ITERATOR, read_buffer + blk_readable_from, blk_bytes);
 
-                // Read failed for this file,
-                // We assume that the file is not reachable
+                BUF_ITERATOR += blk_bytes;
 
-                res = -1;
-                break;
+                continue;
             }
         }
-    }
 
-    if (last_pread_chunk_size > 0) {
-        int pread_res =
-            pread (fd_caching, buf + BUF_ITERATOR, last_pread_chunk_size, last_pread_chunk_offset);
+        /*
+            > Block is not cached (or no longer), it has to be read from the underlying file.
+        */
 
-        BUF_ITERATOR += pread_res;
-        BYTES_LEFT -= pread_res;
+        last_pread_chunk_size += blk_bytes;
     }
 
+    if (res == 0)
+        res = read_last_chunk ();
+
     // ---------------------------------------------------------
 
-    res = BUF_ITERATOR;
-
-    if (res == -1)
-        res = -errno;
+    if (BUF_ITERATOR > 0 || res == 0)
+        res = BUF_ITERATOR;
 
     if (fi == NULL)
         close (fd);
 
+    if (res < 0)
+        return res;
+
     this_ ()->trigger_crash_fault ("read", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("read", "after", path, "");
 
-- 
2.43.0


From cdb2f697998cd9f765d092f79d5145d36ce2fe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:57 +0000
Subject: [PATCH 11/52] fix: large block sizes do not overflow the stack

Reads and writes kept a whole block in a stack array.
---
 lazyfs/src/lazyfs.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index e8d81bb..415f770 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1038,7 +1038,8 @@ int LazyFS::lfs_write (const char* path,
         off_t data_buffer_iterator = 0;
         int fd_caching             = open (path, O_RDONLY);
 
-        char block_caching_buffer[IO_BLOCK_SIZE];
+        std::vector<char> caching_block (IO_BLOCK_SIZE);
+        char* block_caching_buffer = caching_block.data ();
         map<int, tuple<const char*, size_t, int, int>> put_mapping;
 
         bool cache_full = (this_ ()->FSCache->get_cache_usage () == 100) &&
@@ -1335,7 +1336,8 @@ int LazyFS::lfs_read (const char* path,
     int fd_caching     = fd;
     off_t BUF_ITERATOR = 0;
 
-    char read_buffer[IO_BLOCK_SIZE];
+    std::vector<char> read_block (IO_BLOCK_SIZE);
+    char* read_buffer = read_block.data ();
 
     // ----------------------------------------------------------------------------------
 
-- 
2.43.0


From 51922bdb993495088610cedb14d68cbc42259c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:04 +0000
Subject: [PATCH 12/52] fix: filling gaps with zeros is not a write of the user

Sparse writes and extending truncates wrote their zeros with lfs_write, so the
filling was logged, counted as a write by every configured fault, could itself
be split or persisted, and could trigger crash faults meant for writes. The
zeros were also allocated at once, whatever the size of the gap.
---
 lazyfs/include/lazyfs/lazyfs.hpp |  22 ++++++
 lazyfs/src/lazyfs.cpp            | 115 ++++++++++++++++---------------
 2 files changed, 81 insertions(+), 56 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 5fcff7c..08b661f 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -336,6 +336,28 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
                           off_t offset,
                           struct fuse_file_info* fi);
 
+    /**
+     * @brief Writes to the cache, or to the underlying file if the cache is full. Unlike
+     * lfs_write, it is not an operation of the file system user: it is not logged nor
+     * considered when injecting faults.
+     *
+     * @return int the number of bytes written or a negative error code
+     */
+    static int write_cached (const char* path,
+                             const char* buf,
+                             size_t size,
+                             off_t offset,
+                             struct fuse_file_info* fi);
+
+    /**
+     * @brief Fills a file with zeros with write_cached
+     *
+     * @param from first byte to fill
+     * @param to byte after the last one
+     * @return int 0 or a negative error code
+     */
+    static int fill_with_zeros (const char* path, off_t from, off_t to, struct fuse_file_info* fi);
+
     static int lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi);
 
     static int lfs_rmdir (const char* path);
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 415f770..f6428e4 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -951,6 +951,50 @@ int LazyFS::lfs_write (const char* path,
         spdlog::info ("[lazyfs.ops]: {}(path={},size={},off={})", __FUNCTION__, path, size, offset);
     }
 
+    int res = write_cached (path, buf, size, offset, fi);
+
+    if (res < 0)
+        return res;
+
+    string fault_type = CLEAR;
+    bool crash_added = this_ () -> persist_write(path,buf,size,offset);
+    if (!crash_added) { //At the moment only one fault type can be injected
+        crash_added =  this_ () -> split_write(path,buf,size,offset);
+        fault_type = TORN_OP;
+    } else {
+        fault_type = TORN_SEQ; 
+    }
+
+    this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
+    this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
+
+    return res;
+}
+
+int LazyFS::fill_with_zeros (const char* path, off_t from, off_t to, struct fuse_file_info* fi) {
+
+    const off_t max_chunk = 1 << 20;
+    std::vector<char> zeros (std::min (to - from, max_chunk), 0);
+
+    while (from < to) {
+
+        int res = write_cached (path, zeros.data (), std::min (to - from, max_chunk), from, fi);
+
+        if (res <= 0)
+            return res < 0 ? res : -EIO;
+
+        from += res;
+    }
+
+    return 0;
+}
+
+int LazyFS::write_cached (const char* path,
+                          const char* buf,
+                          size_t size,
+                          off_t offset,
+                          struct fuse_file_info* fi) {
+
     int fd;
     int res;
 
@@ -1008,24 +1052,24 @@ int LazyFS::lfs_write (const char* path,
 
         // ----------------------------------------------------------------------------------
 
-        if (fi != NULL) {
+        if (FILE_SIZE_BEFORE < offset) {
 
-            if (FILE_SIZE_BEFORE < offset) {
+            // fill sparse write with zeros
+            // [file_size_offset, offset - 1] = zeros
 
-                // fill sparse write with zeros, how?
-                // [file_size_offset, offset - 1] = zeros
+            spdlog::info ("[lazyfs.ops]: Calling a sparse write.");
 
-                spdlog::info ("[lazyfs.ops]: Calling a sparse write.");
+            res = fill_with_zeros (path, FILE_SIZE_BEFORE, offset, fi);
 
-                off_t size_to_fill = offset - std::max (FILE_SIZE_BEFORE, (off_t)0);
+            if (res < 0) {
 
-                if (size_to_fill > 0) {
+                if (fi == NULL)
+                    close (fd);
 
-                    char* fill_zeros = (char*)calloc (size_to_fill, 1);
-                    lfs_write (path, fill_zeros, size_to_fill, FILE_SIZE_BEFORE, NULL);
-                    free (fill_zeros);
-                }
+                return res;
             }
+
+            FILE_SIZE_BEFORE = offset;
         }
 
         // ----------------------------------------------------------------------------------
@@ -1266,33 +1310,9 @@ int LazyFS::lfs_write (const char* path,
         close (fd_caching);
     }
 
-    // ----------------------------------------------------------------------------------
-    
-    string fault_type = CLEAR;
-    bool crash_added = this_ () -> persist_write(path,buf,size,offset);
-    if (!crash_added) { //At the moment only one fault type can be injected
-        crash_added =  this_ () -> split_write(path,buf,size,offset);
-        fault_type = TORN_OP;
-    } else {
-        fault_type = TORN_SEQ; 
-    }
-
-    // res should be = actual bytes written as pwrite could fail...
-    res = size;
-
-    // std::printf ("\twrite: returning %d bytes\n", res);
-
-    if (res == -1)
-        res = -errno;
-
     if (fi == NULL)
         close (fd);
 
-    
-
-    this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
-    this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
-
     return res;
 }
 
@@ -1662,7 +1682,6 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
 }
 
 int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_file_info* fi) {
-    cout << ">> FTRUNCATE" << endl;
 
     this_ ()->trigger_crash_fault ("truncate", "before", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("truncate", "before", path, "");
@@ -1732,7 +1751,6 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     if (has_content_cached && truncate_size > previous_metadata->size) {
 
         behave_as_lfs_write = true;
-        cout << "***************************** BEHAVE AS " << endl;
     }
 
     if (behave_as_lfs_write) {
@@ -1743,27 +1761,12 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
             2: Content exists? Fill size_before -> size with zeros
         */
 
-        size_t IO_BLOCK_SIZE        = this_ ()->FSConfig->IO_BLOCK_SIZE;
-        off_t file_size             = has_content_cached ? previous_metadata->size : 0;
-        off_t add_bytes_from_offset = file_size;
-        off_t add_bytes_total       = truncate_size - add_bytes_from_offset;
-
-        char* buf = (char*)malloc (add_bytes_total);
-        memset (buf, 0, add_bytes_total);
-
-        int r = lfs_write (path, buf, add_bytes_total, add_bytes_from_offset, fi);
+        off_t file_size = has_content_cached ? previous_metadata->size : 0;
 
-        if (r != add_bytes_total) {
-
-            int res;
-
-            if (fi != NULL)
-                res = ftruncate (fi->fh, truncate_size);
-            else
-                res = truncate (path, truncate_size);
-        }
+        res = fill_with_zeros (path, file_size, truncate_size, fi);
 
-        free (buf);
+        if (res < 0)
+            return res;
 
     } else if (truncate_size < previous_metadata->size) {
 
-- 
2.43.0


From e3e13ee89ffc26015c4c11cef84f10ecc8e351b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:51 +0000
Subject: [PATCH 13/52] fix: writes report what was written and use all the
 room of the cache

lfs_write returned the requested size even if reading the block or writing to
the underlying file had failed. Bytes that a truncate had dropped came back when
an uncached block was read again, short reads were taken for the end of the
file, a block evicted between the check and the update lost its other bytes,
and with several blocks per page the free blocks of used pages were not used.
---
 lazyfs/src/lazyfs.cpp                         | 284 +++++++++---------
 .../include/cache/engine/page_cache.hpp       |   1 +
 .../engine/backends/custom/custom_cache.cpp   |   5 +-
 3 files changed, 152 insertions(+), 138 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index f6428e4..6b08bb9 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -971,17 +971,85 @@ int LazyFS::lfs_write (const char* path,
     return res;
 }
 
+/**
+ * @brief Reads until the buffer is full or the file ends
+ *
+ * @return ssize_t the number of bytes read, or -1 if a read failed
+ */
+static ssize_t pread_all (int fd, char* buf, size_t size, off_t offset) {
+
+    size_t total = 0;
+
+    while (total < size) {
+
+        ssize_t res = pread (fd, buf + total, size - total, offset + total);
+
+        if (res < 0)
+            return -1;
+
+        if (res == 0)
+            break;
+
+        total += res;
+    }
+
+    return total;
+}
+
+/**
+ * @brief Writes the whole buffer
+ *
+ * @return ssize_t the number of bytes written, or -1 if nothing could be written
+ */
+static ssize_t pwrite_all (int fd, const char* buf, size_t size, off_t offset) {
+
+    size_t total = 0;
+
+    while (total < size) {
+
+        ssize_t res = pwrite (fd, buf + total, size - total, offset + total);
+
+        if (res <= 0) {
+
+            if (res == 0)
+                errno = EIO;
+
+            return total > 0 ? total : -1;
+        }
+
+        total += res;
+    }
+
+    return total;
+}
+
 int LazyFS::fill_with_zeros (const char* path, off_t from, off_t to, struct fuse_file_info* fi) {
 
-    const off_t max_chunk = 1 << 20;
+    const off_t size_before = from;
+    const off_t max_chunk   = 1 << 20;
     std::vector<char> zeros (std::min (to - from, max_chunk), 0);
 
     while (from < to) {
 
         int res = write_cached (path, zeros.data (), std::min (to - from, max_chunk), from, fi);
 
-        if (res <= 0)
+        if (res <= 0) {
+
+            // do not leave the file partly extended
+
+            string inode = this_ ()->FSCache->get_original_inode (path);
+            this_ ()->FSCache->truncate_item (inode, size_before);
+
+            if (this_ ()->FSCache->lockItemCheckExists (inode)) {
+
+                Metadata meta;
+                meta.size = size_before;
+                this_ ()->FSCache->update_content_metadata (inode, meta, {"size"});
+                this_ ()->FSCache->unlockItem (inode);
+            }
+
             return res < 0 ? res : -EIO;
+        }
 
         from += res;
     }
@@ -996,7 +1064,7 @@ int LazyFS::write_cached (const char* path,
                           struct fuse_file_info* fi) {
 
     int fd;
-    int res;
+    int res = 0;
 
     (void)fi;
     if (fi == NULL) {
@@ -1025,6 +1093,9 @@ int LazyFS::write_cached (const char* path,
 
         res = pwrite (fd, buf, size, offset);
 
+        if (res < 0)
+            res = -errno;
+
     } else {
 
         // ----------------------------------------------------------------------------------
@@ -1079,15 +1150,20 @@ int LazyFS::write_cached (const char* path,
         off_t blk_readable_from    = 0;
         off_t blk_readable_to      = 0;
         off_t data_allocated       = 0;
-        off_t data_buffer_iterator = 0;
         int fd_caching             = open (path, O_RDONLY);
 
+        if (fd_caching < 0) {
+
+            res = -errno;
+
+            if (fi == NULL)
+                close (fd);
+
+            return res;
+        }
+
         std::vector<char> caching_block (IO_BLOCK_SIZE);
         char* block_caching_buffer = caching_block.data ();
-        map<int, tuple<const char*, size_t, int, int>> put_mapping;
-
-        bool cache_full = (this_ ()->FSCache->get_cache_usage () == 100) &&
-                          !this_ ()->FSConfig->APPLY_LRU_EVICTION;
 
         // ----------------------------------------------------------------------------------
 
@@ -1107,20 +1183,19 @@ int LazyFS::write_cached (const char* path,
 
             if (CURR_BLK_IDX == blk_high)
                 blk_readable_to = ((offset + size - 1) % IO_BLOCK_SIZE);
-            else if ((CURR_BLK_IDX == blk_low) && ((offset + size - 1) < IO_BLOCK_SIZE))
-                blk_readable_to = offset + size - 1;
-            else if (CURR_BLK_IDX < blk_high)
+            else
                 blk_readable_to = IO_BLOCK_SIZE - 1;
-            else if (CURR_BLK_IDX == blk_high)
-                blk_readable_to = size - data_allocated - 1;
 
-            // data_allocated += blk_readable_to - blk_readable_from + 1;
+            size_t blk_wr_sz = blk_readable_to - blk_readable_from + 1;
 
-            bool is_block_cached = this_ ()->FSCache->is_block_cached (inode, CURR_BLK_IDX);
+            const char* cache_buf = buf + data_allocated;
+            size_t cache_wr_sz    = blk_wr_sz;
+            off_t cache_from      = blk_readable_from;
+            off_t cache_to        = blk_readable_to;
 
-            if (is_block_cached == false) {
+            bool is_block_cached = this_ ()->FSCache->is_block_cached (inode, CURR_BLK_IDX);
 
-                bool needs_pread = FILE_SIZE_BEFORE > CURR_BLK_IDX * IO_BLOCK_SIZE;
+            if (is_block_cached == false && FILE_SIZE_BEFORE > CURR_BLK_IDX * IO_BLOCK_SIZE) {
 
                 /*
                     > Block not found in the caching lib:
@@ -1129,158 +1204,92 @@ int LazyFS::write_cached (const char* path,
                     if any of these fails, pwrite it to the underlying FS.
                 */
 
-                if (fd_caching >= 0) {
-
-                    // Always block sized reads for pread calls
-
-                    int pread_res = 0;
+                // Block sized reads for pread calls, without the bytes after the end of the file
 
-                    if (cache_full)
-                        needs_pread = false;
+                off_t blk_file_bytes = FILE_SIZE_BEFORE - CURR_BLK_IDX * IO_BLOCK_SIZE;
 
-                    if (needs_pread) {
+                ssize_t pread_res = pread_all (fd_caching,
+                                               block_caching_buffer,
+                                               std::min (blk_file_bytes, (off_t)IO_BLOCK_SIZE),
+                                               CURR_BLK_IDX * IO_BLOCK_SIZE);
 
-                        pread_res = pread (fd_caching,
-                                           block_caching_buffer,
-                                           IO_BLOCK_SIZE,
-                                           CURR_BLK_IDX * IO_BLOCK_SIZE);
-                    }
-
-                    if (pread_res < 0) {
-
-                        // Read failed for this file,
-                        // We assume that the file is not reachable
-
-                        res = -1;
-                        break;
-
-                    } else {
+                if (pread_res < 0) {
 
-                        const char* cache_buf;
-                        size_t cache_wr_sz;
-                        off_t cache_from;
-                        off_t cache_to;
-
-                        if ((not needs_pread) || (pread_res == 0)) {
-
-                            cache_buf   = buf + data_buffer_iterator;
-                            cache_wr_sz = blk_readable_to - blk_readable_from + 1;
-                            cache_from  = blk_readable_from;
-                            cache_to    = blk_readable_to;
-
-                        } else {
+                    // Read failed for this file,
+                    // We assume that the file is not reachable
 
-                            memcpy (block_caching_buffer + blk_readable_from,
-                                    buf + data_buffer_iterator,
-                                    blk_readable_to - blk_readable_from + 1);
+                    res = -errno;
+                    break;
+                }
 
-                            if (blk_readable_from - pread_res > 0)
-                                memset (block_caching_buffer + pread_res,
-                                        0,
-                                        blk_readable_from - pread_res);
+                if (pread_res > 0) {
 
-                            cache_buf = block_caching_buffer;
+                    memcpy (block_caching_buffer + blk_readable_from,
+                            buf + data_allocated,
+                            blk_wr_sz);
 
-                            cache_wr_sz =
-                                pread_res > (blk_readable_to + 1) ? pread_res : blk_readable_to + 1;
+                    if (blk_readable_from - pread_res > 0)
+                        memset (block_caching_buffer + pread_res,
+                                0,
+                                blk_readable_from - pread_res);
 
-                            cache_from = 0;
-                            cache_to   = cache_wr_sz - 1;
-                        }
+                    cache_buf = block_caching_buffer;
 
-                        // Increase the ammount of bytes already written from the argument
-                        // 'size'
-                        data_allocated += blk_readable_to - blk_readable_from + 1;
+                    cache_wr_sz =
+                        pread_res > (blk_readable_to + 1) ? pread_res : blk_readable_to + 1;
 
-                        bool curr_block_put_exists = false;
-                        std::map<int, bool> put_res;
+                    cache_from = 0;
+                    cache_to   = cache_wr_sz - 1;
+                }
+            }
 
-                        if (!cache_full) {
+            /*
+                > If the block seems to be cached:
 
-                            put_res = this_ ()->FSCache->put_data_blocks (
-                                inode,
-                                {{CURR_BLK_IDX, {cache_buf, cache_wr_sz, cache_from, cache_to}}},
-                                OP_WRITE);
-                        }
+                Try to update block data by replacing block contents for that offsets.
+            */
 
-                        curr_block_put_exists = put_res.find (CURR_BLK_IDX) != put_res.end ();
+            auto put_res = this_ ()->FSCache->put_data_blocks (
+                inode,
+                {{CURR_BLK_IDX, {cache_buf, cache_wr_sz, cache_from, cache_to}}},
+                is_block_cached ? OP_UPDATE : OP_WRITE);
 
-                        if (cache_full ||
-                            (!curr_block_put_exists || (put_res.at (CURR_BLK_IDX) == false))) {
+            bool curr_block_put_exists = put_res.find (CURR_BLK_IDX) != put_res.end ();
 
-                            // Block allocation in cache failed
+            if (!curr_block_put_exists || put_res.at (CURR_BLK_IDX) == false) {
 
-                            int pwrite_res = pwrite (fd,
-                                                     cache_buf,
-                                                     cache_wr_sz,
-                                                     CURR_BLK_IDX * IO_BLOCK_SIZE + cache_from);
+                // Block allocation in cache failed
 
-                            if (pwrite_res != cache_wr_sz) {
-                                res = -1;
-                                break;
-                            }
-                        }
-                    }
+                ssize_t pwrite_res = pwrite_all (fd,
+                                                 buf + data_allocated,
+                                                 blk_wr_sz,
+                                                 CURR_BLK_IDX * IO_BLOCK_SIZE + blk_readable_from);
 
-                } else {
+                if (pwrite_res != (ssize_t)blk_wr_sz) {
 
-                    // Read failed for this file,
-                    // We assume that the file is not reachable
+                    if (pwrite_res < 0)
+                        res = -errno;
+                    else
+                        data_allocated += pwrite_res;
 
-                    res = -1;
                     break;
                 }
-
-            } else {
-
-                /*
-                    > Block seems to be cached:
-
-                    Try to update block data by replacing block contents for that offsets.
-                    If it fails, sync data...
-                */
-
-                // Increase the ammount of bytes already written from the argument 'size'
-                data_allocated += blk_readable_to - blk_readable_from + 1;
-
-                auto put_res =
-                    this_ ()->FSCache->put_data_blocks (inode,
-                                                        {{CURR_BLK_IDX,
-                                                          {buf + data_buffer_iterator,
-                                                           blk_readable_to - blk_readable_from + 1,
-                                                           blk_readable_from,
-                                                           blk_readable_to}}},
-                                                        OP_WRITE);
-                bool curr_block_put_exists = put_res.find (CURR_BLK_IDX) != put_res.end ();
-
-                if (!curr_block_put_exists || put_res.at (CURR_BLK_IDX) == false) {
-
-                    int pwrite_res = pwrite (fd,
-                                             buf + data_buffer_iterator,
-                                             blk_readable_to - blk_readable_from + 1,
-                                             CURR_BLK_IDX * IO_BLOCK_SIZE + blk_readable_from);
-
-                    if (pwrite_res != (blk_readable_to - blk_readable_from + 1)) {
-                        res = -1;
-                        break;
-                    }
-                }
             }
 
-            data_buffer_iterator = data_allocated;
+            // Increase the ammount of bytes already written from the argument 'size'
+            data_allocated += blk_wr_sz;
         }
 
-        // ----------------------------------------------------------------------------------
-
-        // close (fd_caching);
+        if (data_allocated > 0 || size == 0)
+            res = data_allocated;
 
         // ----------------------------------------------------------------------------------
 
         bool locked = this_ ()->FSCache->lockItemCheckExists (inode);
 
-        if (locked) {
+        if (locked && data_allocated > 0) {
 
-            off_t was_written_until_offset = offset + size;
+            off_t was_written_until_offset = offset + data_allocated;
 
             Metadata meta;
             meta.size = was_written_until_offset > FILE_SIZE_BEFORE ? was_written_until_offset
@@ -1303,9 +1312,10 @@ int LazyFS::write_cached (const char* path,
             this_ ()->FSCache->update_content_metadata (inode, meta, values_to_change);
 
             // std::printf ("\twrite: file size now is %d bytes\n", (int)meta.size);
+        }
 
+        if (locked)
             this_ ()->FSCache->unlockItem (inode);
-        }
 
         close (fd_caching);
     }
diff --git a/libs/libpcache/include/cache/engine/page_cache.hpp b/libs/libpcache/include/cache/engine/page_cache.hpp
index c64f951..a4843ff 100644
--- a/libs/libpcache/include/cache/engine/page_cache.hpp
+++ b/libs/libpcache/include/cache/engine/page_cache.hpp
@@ -33,6 +33,7 @@ namespace cache::engine {
 enum AllocateOperationType {
     OP_READ,       /**< Specifies that the put operation comes from a read operation */
     OP_WRITE,      /**< Specifies that the put operation comes from a write operation */
+    OP_UPDATE,     /**< Like OP_WRITE, but only updates blocks that are still cached */
     OP_PASSTHROUGH /**< Specifies the otherwise case (equal to OP_READ for now) */
 };
 
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 4778827..5d6d020 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -402,7 +402,10 @@ map<int, int> CustomCacheEngine::allocate_blocks (
         }
         // default behaviour if a new free page is needed
 
-        pair<int, Page*> next_free_page = _get_next_free_page (content_owner_id);
+        pair<int, Page*> next_free_page = make_pair (-1, nullptr);
+
+        if (operation_type != OP_UPDATE)
+            next_free_page = _get_next_free_page (content_owner_id);
 
         int free_page_id    = next_free_page.first;
         page_id             = free_page_id;
-- 
2.43.0


From c0e8778f448c08a93c9b37002d5c64bceb6a200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:23 +0000
Subject: [PATCH 14/52] fix: truncate reports errors and never returns an
 uninitialised result

The result was only set on one path, a missing file led to truncating the
underlying file directly, and the metadata was used after its lock was released.
---
 lazyfs/src/lazyfs.cpp | 119 +++++++++++-------------------------------
 1 file changed, 30 insertions(+), 89 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 6b08bb9..f6fd981 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -852,8 +852,15 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
         spdlog::info ("[lazyfs.ops]: {}(path={},mode={})", __FUNCTION__, path, access_mode_str);
     }
 
-    if (fi->flags & O_TRUNC)
-        lfs_truncate (path, 0, fi);
+    if (fi->flags & O_TRUNC) {
+
+        res = lfs_truncate (path, 0, fi);
+
+        if (res < 0) {
+            close (fi->fh);
+            return res;
+        }
+    }
 
     this_ ()->trigger_crash_fault ("open", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("open", "after", path, "");
@@ -1700,121 +1707,55 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     std::shared_lock<std::shared_mutex> lock (cache_command_lock);
 
     struct stat stats;
-    lfs_getattr (path, &stats, fi);
+    int res = lfs_getattr (path, &stats, fi);
 
     if (this_ ()->FSConfig->log_all_operations) {
         spdlog::info ("[lazyfs.ops]: {}(path={},size={})", __FUNCTION__, path, truncate_size);
     }
 
-    int res;
+    if (res < 0)
+        return res;
 
     string owner (path);
     string inode = this_ ()->FSCache->get_original_inode (owner);
 
-    bool locked_initial = this_ ()->FSCache->lockItemCheckExists (inode);
-
-    Metadata* previous_metadata;
-
-    if (locked_initial) {
-
-        previous_metadata = this_ ()->FSCache->get_content_metadata (inode);
-
-        this_ ()->FSCache->unlockItem (inode);
-
-    } else {
-
-        if (fi != NULL)
-            res = ftruncate (fi->fh, 0);
-        else
-            res = truncate (path, 0);
-
-        lfs_getattr (path, &stats, fi);
-        string newino = to_string (stats.st_ino);
-        if (this_ ()->FSCache->lockItemCheckExists (newino)) {
-            previous_metadata = this_ ()->FSCache->get_content_metadata (newino);
-            this_ ()->FSCache->unlockItem (newino);
-            inode = newino;
-        } else
-            return -1;
-    }
-
-    bool has_content_cached  = previous_metadata != nullptr;
-    bool behave_as_lfs_write = false;
-
-    if (not has_content_cached) {
-
-        /*
-            If getattr is enabled for every call on read/write/open...the content
-            should be already cached when calling it.
-        */
+    // getattr caches the metadata of every regular file
 
-        behave_as_lfs_write = true;
-    }
-
-    if (has_content_cached && truncate_size == previous_metadata->size) {
-
-        behave_as_lfs_write = false;
-
-        // Since truncate size is the same as the file size, there's nothing to change/truncate.
-    }
-
-    if (has_content_cached && truncate_size > previous_metadata->size) {
+    if (!this_ ()->FSCache->lockItemCheckExists (inode))
+        return -EINVAL;
 
-        behave_as_lfs_write = true;
-    }
+    off_t previous_size = this_ ()->FSCache->get_content_metadata (inode)->size;
 
-    if (behave_as_lfs_write) {
+    this_ ()->FSCache->unlockItem (inode);
 
-        /*
-            In this case, cache file data to reach the size to truncate with zeroes.
-            1: Content does not exist? Fill 0 -> size with zeroes
-            2: Content exists? Fill size_before -> size with zeros
-        */
+    if (truncate_size > previous_size) {
 
-        off_t file_size = has_content_cached ? previous_metadata->size : 0;
+        // In this case, cache file data to reach the size to truncate with zeroes.
 
-        res = fill_with_zeros (path, file_size, truncate_size, fi);
+        res = fill_with_zeros (path, previous_size, truncate_size, fi);
 
         if (res < 0)
             return res;
 
-    } else if (truncate_size < previous_metadata->size) {
+    } else if (truncate_size < previous_size) {
 
         this_ ()->FSCache->truncate_item (inode, truncate_size);
     }
 
-    // todo: update file size
-
-    if (previous_metadata != nullptr) {
-
-        Metadata new_meta;
-        new_meta.size = truncate_size;
+    Metadata new_meta;
+    new_meta.size = truncate_size;
 
-        vector<string> values_to_change;
-        values_to_change.push_back ("size");
+    struct timespec modify_time;
+    clock_gettime (CLOCK_REALTIME, &modify_time);
+    new_meta.mtim = modify_time;
+    new_meta.ctim = modify_time;
 
-        struct timespec modify_time;
-        clock_gettime (CLOCK_REALTIME, &modify_time);
-        new_meta.mtim = modify_time;
-        values_to_change.push_back ("mtime");
+    if (this_ ()->FSCache->lockItemCheckExists (inode)) {
 
-        if (new_meta.size > previous_metadata->size) {
-            new_meta.ctim = modify_time;
-            values_to_change.push_back ("ctime");
-        }
-
-        bool locked = this_ ()->FSCache->lockItemCheckExists (inode);
-
-        if (locked) {
-
-            this_ ()->FSCache->update_content_metadata (inode, new_meta, values_to_change);
-            this_ ()->FSCache->unlockItem (inode);
-        }
+        this_ ()->FSCache->update_content_metadata (inode, new_meta, {"size", "mtime", "ctime"});
+        this_ ()->FSCache->unlockItem (inode);
     }
 
-    if (res == -1)
-        return -errno;
-
     this_ ()->trigger_crash_fault ("truncate", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("truncate", "after", path, "");
 
-- 
2.43.0


From 3ebdacc8e6b585edc4baf68ede88d6e21e8cf354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:01 +0000
Subject: [PATCH 15/52] fix: protect the maps of contents and item locks from
 concurrent use

They were searched without holding any lock while other threads inserted and
erased entries, and the blocks of a file were searched without its lock. The
locks of removed items were also never freed.
---
 libs/libpcache/include/cache/cache.hpp        | 18 +++-
 libs/libpcache/src/cache.cpp                  | 88 ++++++++++---------
 .../engine/backends/custom/custom_cache.cpp   |  2 +
 3 files changed, 64 insertions(+), 44 deletions(-)

diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index a74b409..0409885 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -50,6 +50,13 @@ class Cache {
      */
     std::mutex mapping_mtx;
 
+    /**
+     * @brief Protects the contents and item locks maps. No other lock is requested while
+     *        holding it.
+     *
+     */
+    std::mutex contents_mtx;
+
   private:
     /**
      * @brief Maps filenames to the corresponding inodes.
@@ -87,6 +94,14 @@ class Cache {
      */
     Item* _get_content_ptr (string cid);
 
+    /**
+     * @brief Gets the lock of an Item (assuming it exists)
+     *
+     * @param cid the content id
+     * @return std::shared_mutex* the lock
+     */
+    std::shared_mutex* _get_item_lock (string cid);
+
     /**
      * @brief Maps a file name to an inode
      *
@@ -136,7 +151,8 @@ class Cache {
     Item* _create_item (string cid);
 
     /**
-     * @brief Deletes an existing content
+     * @brief Deletes an existing content and its lock, which must be held by the caller (as
+     * well as the global lock)
      *
      * @param cid the content id
      * @return true if the item was deleted
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 6e85e0e..d0c34b7 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -95,11 +95,15 @@ void Cache::insert_inode_mapping (string path, string inode, bool increase) {
     _set_inode_mapping (path, inode);
 
     if (increase) {
-        Metadata* oldmeta = get_content_metadata (inode);
-        Metadata newmeta;
-        if (oldmeta != nullptr) {
-            newmeta.nlinks = oldmeta->nlinks + 1;
+        if (has_content_cached (inode)) {
+
+            lockItem (inode);
+
+            Metadata newmeta;
+            newmeta.nlinks = get_content_metadata (inode)->nlinks + 1;
             this->update_content_metadata (inode, newmeta, {"nlinks"});
+
+            unlockItem (inode);
         }
     }
 }
@@ -118,30 +122,27 @@ void Cache::_erase_inode_mapping (string path) {
 
 bool Cache::has_content_cached (string cid) {
 
-    if (not this->contents.empty ())
-        return this->contents.find (cid) != this->contents.end ();
-    return false;
+    return _get_content_ptr (cid) != nullptr;
 }
 
 Item* Cache::_get_content_ptr (string cid) {
 
-    if (has_content_cached (cid))
-        return this->contents.at (cid);
+    std::lock_guard<std::mutex> lock (contents_mtx);
+
+    auto it = this->contents.find (cid);
 
-    return nullptr;
+    return it != this->contents.end () ? it->second : nullptr;
 }
 
 bool Cache::is_block_cached (string cid, int blk_id) {
 
-    std::lock_guard<shared_mutex> lock (lock_cache_mtx);
-
-    bool is_cached = false;
+    if (!lockItemCheckExists (cid))
+        return false;
 
-    if (has_content_cached (cid)) {
+    int page       = _get_content_ptr (cid)->get_data ()->get_page_id (blk_id);
+    bool is_cached = this->engine->is_block_cached (cid, page, blk_id);
 
-        int page  = this->contents.at (cid)->get_data ()->get_page_id (blk_id);
-        is_cached = this->engine->is_block_cached (cid, page, blk_id);
-    }
+    unlockItem (cid);
 
     return is_cached;
 }
@@ -175,15 +176,24 @@ Item* Cache::_create_item (string cid) {
 
     Item* cid_item = new Item ();
 
+    std::lock_guard<std::mutex> lock (contents_mtx);
+
     this->item_locks.insert (make_pair (cid, new std::shared_mutex ()));
     this->contents.insert (make_pair (cid, cid_item));
 
     return cid_item;
 }
 
-void Cache::lockItem (string cid) { item_locks[cid]->lock (); }
+std::shared_mutex* Cache::_get_item_lock (string cid) {
 
-void Cache::unlockItem (string cid) { item_locks[cid]->unlock (); }
+    std::lock_guard<std::mutex> lock (contents_mtx);
+
+    return this->item_locks.at (cid);
+}
+
+void Cache::lockItem (string cid) { _get_item_lock (cid)->lock (); }
+
+void Cache::unlockItem (string cid) { _get_item_lock (cid)->unlock (); }
 
 pair<int, int> Cache::_get_readable_offsets (string cid, Item* item, int blk_id) {
 
@@ -321,11 +331,23 @@ map<int, pair<bool, pair<int, int>>> Cache::get_data_blocks (string cid, map<int
 }
 bool Cache::_delete_item (string cid) {
 
-    Item* item = _get_content_ptr (cid);
-    if (item != nullptr) {
-        delete item;
+    std::lock_guard<std::mutex> lock (contents_mtx);
 
-        this->contents.erase (cid);
+    auto item = this->contents.find (cid);
+
+    if (item != this->contents.end ()) {
+
+        delete item->second;
+        this->contents.erase (item);
+
+        // every request for an item lock is made while holding the global lock, as the caller
+        // of this method does, so no one is waiting for it
+
+        std::shared_mutex* item_lock = this->item_locks.at (cid);
+        this->item_locks.erase (cid);
+
+        item_lock->unlock ();
+        delete item_lock;
     }
 
     return true;
@@ -457,13 +479,6 @@ bool Cache::rename_item (string old_cid, string new_cid) {
 
                 this->engine->remove_cached_blocks (to_remove_inode);
                 this->_delete_item (to_remove_inode);
-
-                unlockItem (to_remove_inode);
-
-                if (!this->item_locks.empty () &&
-                    (this->item_locks.find (to_remove_inode) != this->item_locks.end ())) {
-                    this->item_locks.erase (to_remove_inode);
-                }
             }
         }
     }
@@ -504,12 +519,6 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
     this->engine->remove_cached_blocks (owner);
     this->_delete_item (owner);
 
-    unlockItem (owner);
-
-    if (!this->item_locks.empty () && (this->item_locks.find (owner) != this->item_locks.end ())) {
-        this->item_locks.erase (owner);
-    }
-
     lock.unlock ();
 
     return true;
@@ -547,13 +556,6 @@ void Cache::clear_all_cache () {
             this->engine->remove_cached_blocks (it);
 
             this->_delete_item (it);
-
-            unlockItem (it);
-
-            if (!this->item_locks.empty () &&
-                (this->item_locks.find (it) != this->item_locks.end ())) {
-                this->item_locks.erase (it);
-            }
         }
 
         lock.unlock ();
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 5d6d020..dc749ef 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -246,6 +246,8 @@ void CustomCacheEngine::_apply_lru_after_page_visitation_on_READ (int visited_pa
 
 bool CustomCacheEngine::is_block_cached (string content_owner_id, int page_id, int block_id) {
 
+    std::shared_lock<std::shared_mutex> lock (lock_cache_mtx);
+
     Page* p = _get_page_ptr (page_id);
 
     if (p == nullptr)
-- 
2.43.0


From 4cbf5ec37719c37df57854b9fb8ec3292b8e21d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:01 +0000
Subject: [PATCH 16/52] fix: a file is never cached with a wrong size while it
 is being looked up

The item was first created with size 0 and got its metadata later, so another
thread in between saw an empty file, and a write would then discard the bytes
around it.
---
 lazyfs/src/lazyfs.cpp                  | 26 +++++++-------------------
 libs/libpcache/include/cache/cache.hpp |  8 ++++++++
 libs/libpcache/src/cache.cpp           | 16 ++++++++++++++++
 3 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index f6fd981..ab5b95c 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -710,27 +710,15 @@ int LazyFS::lfs_getattr (const char* path, struct stat* stbuf, struct fuse_file_
 
     if (!locked) {
 
-        this_ ()->FSCache->put_data_blocks (inode, {}, OP_PASSTHROUGH);
-
-        bool locked_now = this_ ()->FSCache->lockItemCheckExists (inode);
-
-        if (locked_now) {
-
-            Metadata meta;
+        Metadata meta;
 
-            meta.size   = stbuf->st_size;
-            meta.atim   = stbuf->st_atim;
-            meta.ctim   = stbuf->st_ctim;
-            meta.mtim   = stbuf->st_mtim;
-            meta.nlinks = stbuf->st_nlink;
+        meta.size   = stbuf->st_size;
+        meta.atim   = stbuf->st_atim;
+        meta.ctim   = stbuf->st_ctim;
+        meta.mtim   = stbuf->st_mtim;
+        meta.nlinks = stbuf->st_nlink;
 
-            this_ ()->FSCache->update_content_metadata (
-                inode,
-                meta,
-                {"size", "atime", "ctime", "mtime", "nlinks"});
-
-            this_ ()->FSCache->unlockItem (inode);
-        }
+        this_ ()->FSCache->insert_content (inode, meta);
 
     } else if (locked) {
 
diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index 0409885..6514c89 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -160,6 +160,14 @@ class Cache {
      */
     bool _delete_item (string cid);
 
+    /**
+     * @brief Creates an item without blocks, unless it exists
+     *
+     * @param cid the content id
+     * @param meta the metadata of the new item
+     */
+    void insert_content (string cid, Metadata meta);
+
     /**
      * @brief Checks if a content is cached
      *
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index d0c34b7..5b4272a 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -184,6 +184,22 @@ Item* Cache::_create_item (string cid) {
     return cid_item;
 }
 
+void Cache::insert_content (string cid, Metadata meta) {
+
+    std::lock_guard<shared_mutex> lock (lock_cache_mtx);
+
+    if (not has_content_cached (cid)) {
+
+        Item* item = new Item ();
+        item->update_metadata (meta, {"size", "atime", "ctime", "mtime", "nlinks"});
+
+        std::lock_guard<std::mutex> contents_lock (contents_mtx);
+
+        this->item_locks.insert (make_pair (cid, new std::shared_mutex ()));
+        this->contents.insert (make_pair (cid, item));
+    }
+}
+
 std::shared_mutex* Cache::_get_item_lock (string cid) {
 
     std::lock_guard<std::mutex> lock (contents_mtx);
-- 
2.43.0


From 9944728cd581ce9b42b719de19e0d05b0475c49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:05 +0000
Subject: [PATCH 17/52] fix: names and cached data stay consistent when files
 are renamed or deleted

The cache was updated before rename and unlink were known to succeed, so a
failed operation lost the data or the name. Renaming between hard links of one
file removed its data. A name whose content was not cached kept pointing to the
old inode after the file was deleted. Whether the last name was gone was decided
by a link count that concurrent lookups could get wrong; take it from the file
itself, and keep the inode from being reused until the cache has dropped it.
Listing a directory to be renamed followed symbolic links.
---
 lazyfs/include/lazyfs/lazyfs.hpp       |  23 ++--
 lazyfs/src/lazyfs.cpp                  | 142 ++++++++++++-------------
 libs/libpcache/include/cache/cache.hpp |  18 +++-
 libs/libpcache/src/cache.cpp           |  76 ++++---------
 4 files changed, 112 insertions(+), 147 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 08b661f..3f6229c 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -261,15 +261,6 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      */
     bool split_write(const char* path, const char* buf, size_t size, off_t offset);
 
-    /**
-     * @brief Checks whether a directory is empty of not by counting the number of entries.
-     *        It must be <= 2 to be empty, only containing "." and ".."
-     *
-     * @param dirname the path for the directory
-     * @return int 1 if is empty, 0 if not empty and -1 if an error occurred
-     */
-    static int lfs_is_dir_empty (const char* dirname);
-
     /**
      * @brief Returns a vector with the list of regular file names of all childs of a directory
      *
@@ -279,12 +270,22 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
     static void lfs_get_dir_filenames (const char* dirname, std::vector<string>* result);
 
     /**
-     * @brief Calls rename recursively to all child files and directories
+     * @brief Checks if a file has no more names after one of them was removed
+     *
+     * @param fd a descriptor of the file, or -1 if it could not be opened
+     * @param before the file attributes before the removal
+     * @return true no more names
+     * @return false it still has names
+     */
+    static bool lfs_lost_last_name (int fd, const struct stat& before);
+
+    /**
+     * @brief Renames a directory and the cached names of all files inside it
      *
      * @param from the current subpath
      * @param to desired path
      * @param flags fuse rename flags
-     * @return int
+     * @return int 0, or -1 if the directory could not be renamed
      */
     static int lfs_recursive_rename (const char* from, const char* to, unsigned int flags);
 
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index ab5b95c..4e067d8 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -749,7 +749,6 @@ int LazyFS::lfs_getattr (const char* path, struct stat* stbuf, struct fuse_file_
             stbuf->st_ctim.tv_sec  = meta->ctim.tv_sec;
             stbuf->st_mtim.tv_nsec = meta->mtim.tv_nsec;
             stbuf->st_mtim.tv_sec  = meta->mtim.tv_sec;
-            stbuf->st_nlink        = meta->nlinks;
         }
 
         this_ ()->FSCache->unlockItem (inode);
@@ -1554,27 +1553,6 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
     return res;
 }
 
-int LazyFS::lfs_is_dir_empty (const char* dirname) {
-
-    struct dirent* from_DIRENT;
-    DIR* from_DIR = opendir (dirname);
-
-    if (!from_DIR)
-        return -1;
-
-    int nr_files = 0;
-
-    while ((from_DIRENT = readdir (from_DIR)) != NULL) {
-
-        if (++nr_files > 2)
-            break;
-    }
-
-    closedir (from_DIR);
-
-    return (nr_files <= 2) ? 1 : 0;
-}
-
 void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* result) {
 
     struct dirent* from_DIRENT;
@@ -1592,54 +1570,36 @@ void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* re
 
             if (from_DIRENT->d_type == DT_REG)
                 result->push_back (base_path);
-
-            lfs_get_dir_filenames (base_path.c_str (), result);
+            else if (from_DIRENT->d_type == DT_DIR)
+                lfs_get_dir_filenames (base_path.c_str (), result);
         }
     }
 
     closedir (from_DIR);
 }
 
-int LazyFS::lfs_recursive_rename (const char* from, const char* to, unsigned int flags) {
-
-    std::vector<string> from_dir_filepaths;
-    lfs_get_dir_filenames (from, &from_dir_filepaths);
-
-    // Check if destination folder exists
-
-    struct stat to_stat;
-    if (!stat (to, &to_stat) && S_ISDIR (to_stat.st_mode)) {
-
-        // destination folder exists and is a directory
-        // prepend with new prepend and merge
-
-        int is_empty = lfs_is_dir_empty (to);
-
-        if (is_empty == 1) {
+bool LazyFS::lfs_lost_last_name (int fd, const struct stat& before) {
 
-            goto replace_prepend;
+    struct stat after;
 
-        } else if (is_empty == 0) {
+    if (fd >= 0 && fstat (fd, &after) == 0)
+        return after.st_nlink == 0;
 
-            errno = ENOTEMPTY;
-
-            return -1;
-        }
+    return before.st_nlink <= 1;
+}
 
-    } else {
+int LazyFS::lfs_recursive_rename (const char* from, const char* to, unsigned int flags) {
 
-    replace_prepend:
+    std::vector<string> from_dir_filepaths;
+    lfs_get_dir_filenames (from, &from_dir_filepaths);
 
-        // destination folder doesn't exist
-        // all 'from' paths should be replaced with the new prepend
+    if (rename (from, to) == -1)
+        return -1;
 
-        for (auto const& it : from_dir_filepaths) {
+    // all 'from' paths should be replaced with the new prepend
 
-            this_ ()->FSCache->rename_item (it, string (to + it.substr (string (from).size ())))
-                ? 0
-                : -1;
-        }
-    }
+    for (auto const& it : from_dir_filepaths)
+        this_ ()->FSCache->rename_item (it, string (to + it.substr (string (from).size ())), "");
 
     return 0;
 }
@@ -1660,25 +1620,48 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
     if (flags)
         return -EINVAL;
 
-    string last_owner (from);
-    string inode = this_ ()->FSCache->get_original_inode (last_owner);
-    string new_owner (to);
+    struct stat from_stat;
 
-    if (inode.empty ()) {
+    if (lstat (from, &from_stat) == -1)
+        return -errno;
 
-        // from: is a dir, because getattr does not cache dirs
+    if (S_ISDIR (from_stat.st_mode)) {
 
-        lfs_recursive_rename (from, to, flags);
-        res = rename (from, to);
+        // getattr does not cache dirs, only the files inside change their names
+
+        if (lfs_recursive_rename (from, to, flags) == -1)
+            return -errno;
 
     } else {
 
-        res = this_ ()->FSCache->rename_item (last_owner, new_owner) ? 0 : -1;
+        // Keep the inode of a replaced file in use until the cache has dropped it
+
+        struct stat to_stat;
+        bool replaces   = lstat (to, &to_stat) == 0;
+        int fd_replaced = replaces ? open (to, O_PATH | O_NOFOLLOW) : -1;
+
         res = rename (from, to);
-    }
 
-    if (res == -1)
-        return -errno;
+        if (res == -1) {
+            res = -errno;
+            close (fd_replaced);
+            return res;
+        }
+
+        // if both are hard links to the same file nothing was changed
+
+        if (!replaces || to_stat.st_ino != from_stat.st_ino) {
+
+            string removed_inode = replaces && lfs_lost_last_name (fd_replaced, to_stat)
+                                       ? to_string (to_stat.st_ino)
+                                       : "";
+
+            this_ ()->FSCache->rename_item (from, to, removed_inode);
+        }
+
+        if (fd_replaced >= 0)
+            close (fd_replaced);
+    }
 
     this_ ()->trigger_crash_fault ("rename", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("rename", "after", from, to);
@@ -2038,18 +2021,29 @@ int LazyFS::lfs_unlink (const char* path) {
 
     int res;
 
-    string inode = this_ ()->FSCache->get_original_inode (path);
-    if (!inode.empty ())
-        this_ ()->FSCache->remove_cached_item (inode, path, false);
+    struct stat stats;
+
+    if (lstat (path, &stats) == -1)
+        return -errno;
+
+    // Keep the inode in use until the cache has dropped it
+
+    int fd = open (path, O_PATH | O_NOFOLLOW);
 
     res = unlink (path);
 
-    if (res == 0 && inode.empty ()) {
-        this_ ()->FSCache->remove_cached_item (inode, path, false);
+    if (res == -1) {
+        res = -errno;
+        close (fd);
+        return res;
     }
 
-    if (res == -1)
-        return -errno;
+    this_ ()->FSCache->remove_cached_item (to_string (stats.st_ino),
+                                           path,
+                                           lfs_lost_last_name (fd, stats));
+
+    if (fd >= 0)
+        close (fd);
 
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("unlink", "before", path, "");
diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index 6514c89..6684223 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -102,6 +102,15 @@ class Cache {
      */
     std::shared_mutex* _get_item_lock (string cid);
 
+    /**
+     * @brief Removes a content and its blocks. The caller must hold the global lock.
+     *
+     * @param cid the content id
+     * @return true the content was removed
+     * @return false the content does not exist
+     */
+    bool _remove_content (string cid);
+
     /**
      * @brief Maps a file name to an inode
      *
@@ -275,11 +284,11 @@ class Cache {
      *
      * @param owner the content id
      * @param path original path name to remove
-     * @param is_from_cache remove comes from a clear cache command
+     * @param remove_content also remove the content, not only this name of it
      * @return true item was removed
-     * @return false item does not exist
+     * @return false item was not removed or does not exist
      */
-    bool remove_cached_item (string owner, const char* path, bool is_from_cache);
+    bool remove_cached_item (string owner, const char* path, bool remove_content);
 
     /**
      * @brief Syncs a contents data and/or metadata.
@@ -296,10 +305,11 @@ class Cache {
      *
      * @param old_cid the old content id
      * @param new_cid the new content id
+     * @param removed_inode inode that lost its last name because it was replaced, or empty
      * @return true if item exists
      * @return false item does not exist
      */
-    bool rename_item (string old_cid, string new_cid);
+    bool rename_item (string old_cid, string new_cid, string removed_inode);
 
     /**
      * @brief Removes all cache contents
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 5b4272a..af4e353 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -455,87 +455,47 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
     return res;
 }
 
-bool Cache::rename_item (string old_cid, string new_cid) {
-
-    bool return_val = true;
+bool Cache::rename_item (string old_cid, string new_cid, string removed_inode) {
 
     std::lock_guard<shared_mutex> lock (lock_cache_mtx);
 
-    if (this->file_inode_mapping.find (old_cid) != this->file_inode_mapping.end ()) {
-        string inode = this->file_inode_mapping.at (old_cid);
+    bool exists = this->file_inode_mapping.find (old_cid) != this->file_inode_mapping.end ();
 
-        string to_remove_inode = "";
+    if (exists) {
 
-        if (this->file_inode_mapping.find (new_cid) != this->file_inode_mapping.end ()) {
-            to_remove_inode = this->file_inode_mapping.at (new_cid);
-        }
+        string inode = this->file_inode_mapping.at (old_cid);
 
         _erase_inode_mapping (old_cid);
         _set_inode_mapping (new_cid, inode);
 
-        if (has_content_cached (to_remove_inode)) {
-
-            Item* item = _get_content_ptr (to_remove_inode);
-
-            if (item != nullptr) {
-
-                lockItem (to_remove_inode);
-
-                nlink_t before_nlinks = item->get_metadata ()->nlinks;
-
-                Metadata new_meta_after_removal;
-                new_meta_after_removal.nlinks = std::max ((int)before_nlinks - 1, 1);
-                item->update_metadata (new_meta_after_removal, {"nlinks"});
+    } else {
 
-                if (before_nlinks > 1) {
-
-                    unlockItem (to_remove_inode);
-                    return return_val;
-                }
-
-                this->engine->remove_cached_blocks (to_remove_inode);
-                this->_delete_item (to_remove_inode);
-            }
-        }
+        _erase_inode_mapping (new_cid);
     }
 
-    return return_val;
-}
-
-bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cache) {
-
-    std::unique_lock<shared_mutex> lock (lock_cache_mtx, std::defer_lock);
-    lock.lock ();
+    _remove_content (removed_inode);
 
-    if (not has_content_cached (owner)) {
+    return exists;
+}
 
-        lock.unlock ();
-        return false;
-    }
+bool Cache::remove_cached_item (string owner, const char* path, bool remove_content) {
 
-    lockItem (owner);
+    std::lock_guard<shared_mutex> lock (lock_cache_mtx);
 
     _erase_inode_mapping (string (path));
 
-    Item* item = _get_content_ptr (owner);
-
-    nlink_t before_nlinks = item->get_metadata ()->nlinks;
-
-    Metadata new_meta_after_removal;
-    new_meta_after_removal.nlinks = std::max ((int)before_nlinks - 1, 1);
-    item->update_metadata (new_meta_after_removal, {"nlinks"});
+    return remove_content && _remove_content (owner);
+}
 
-    if (!is_from_cache && before_nlinks > 1) {
+bool Cache::_remove_content (string cid) {
 
-        unlockItem (owner);
-        lock.unlock ();
+    if (not has_content_cached (cid))
         return false;
-    }
 
-    this->engine->remove_cached_blocks (owner);
-    this->_delete_item (owner);
+    lockItem (cid);
 
-    lock.unlock ();
+    this->engine->remove_cached_blocks (cid);
+    this->_delete_item (cid);
 
     return true;
 }
-- 
2.43.0


From 32d168fef50eadd4ad84847dc16ab96d9f677a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:41 +0000
Subject: [PATCH 18/52] fix: changed times are shown at once

utimens, chmod and chown changed the underlying file only, while getattr shows
the cached times.
---
 lazyfs/include/lazyfs/lazyfs.hpp |  8 ++++++++
 lazyfs/src/lazyfs.cpp            | 29 +++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 3f6229c..1bfee00 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -269,6 +269,14 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      */
     static void lfs_get_dir_filenames (const char* dirname, std::vector<string>* result);
 
+    /**
+     * @brief Updates the cached times of a file that were changed in the underlying one
+     *
+     * @param path the file path
+     * @param times the names of the times to update
+     */
+    static void update_cached_times (const char* path, std::vector<string> times);
+
     /**
      * @brief Checks if a file has no more names after one of them was removed
      *
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 4e067d8..fa05e45 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1873,6 +1873,23 @@ int LazyFS::lfs_rmdir (const char* path) {
     return 0;
 }
 
+void LazyFS::update_cached_times (const char* path, vector<string> times) {
+
+    struct stat stats;
+    string inode = this_ ()->FSCache->get_original_inode (path);
+
+    if (lstat (path, &stats) == 0 && this_ ()->FSCache->lockItemCheckExists (inode)) {
+
+        Metadata meta;
+        meta.atim = stats.st_atim;
+        meta.ctim = stats.st_ctim;
+        meta.mtim = stats.st_mtim;
+
+        this_ ()->FSCache->update_content_metadata (inode, meta, times);
+        this_ ()->FSCache->unlockItem (inode);
+    }
+}
+
 int LazyFS::lfs_chmod (const char* path, mode_t mode, struct fuse_file_info* fi) {
 
     std::shared_lock<std::shared_mutex> lock (cache_command_lock);
@@ -1888,6 +1905,8 @@ int LazyFS::lfs_chmod (const char* path, mode_t mode, struct fuse_file_info* fi)
     if (res == -1)
         return -errno;
 
+    update_cached_times (path, {"ctime"});
+
     return 0;
 }
 
@@ -1906,6 +1925,8 @@ int LazyFS::lfs_chown (const char* path, uid_t uid, gid_t gid, fuse_file_info* f
     if (res == -1)
         return -errno;
 
+    update_cached_times (path, {"ctime"});
+
     return 0;
 }
 
@@ -1975,6 +1996,14 @@ int LazyFS::lfs_utimens (const char* path, const struct timespec ts[2], struct f
     if (res == -1)
         return -errno;
 
+    vector<string> changed_times = {"ctime"};
+    if (ts == NULL || ts[0].tv_nsec != UTIME_OMIT)
+        changed_times.push_back ("atime");
+    if (ts == NULL || ts[1].tv_nsec != UTIME_OMIT)
+        changed_times.push_back ("mtime");
+
+    update_cached_times (path, changed_times);
+
     return 0;
 }
 // #endif
-- 
2.43.0


From b946fc04626b494f4ebbd29db9be2c54d55a2f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:10 +0000
Subject: [PATCH 19/52] fix: crash faults on two paths honour from_rgx and
 to_rgx

The source regex was ignored and a destination regex alone never matched.
Commands add faults while operations look for them, so both take a lock.
---
 lazyfs/include/lazyfs/lazyfs.hpp |  9 +++++--
 lazyfs/src/lazyfs.cpp            | 44 ++++++++++++++------------------
 2 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 1bfee00..78dd9a4 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -127,6 +127,11 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
     */
     vector<string> injecting_fault;
 
+    /**
+     * @brief Protects the crash faults and the map of faults, used by operations and commands.
+     */
+    std::mutex faults_lock;
+
     /**
      * @brief Lock for current injected faults.
     */
@@ -139,8 +144,8 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      *
      */
     // operation -> [((from_rgx, to_rgx), ...]
-    std::unordered_map<string, vector<pair<std::regex, string>>> crash_faults_before_map;
-    std::unordered_map<string, vector<pair<std::regex, string>>> crash_faults_after_map;
+    std::unordered_map<string, vector<pair<string, string>>> crash_faults_before_map;
+    std::unordered_map<string, vector<pair<string, string>>> crash_faults_after_map;
 
     /**
      * @brief Map of allowed operations to have a crash fault
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index fa05e45..7b7bee5 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -100,7 +100,7 @@ void LazyFS::trigger_crash_fault (string opname,
                                   string to_op_path,
                                   string fault_type) {
 
-    vector<pair<std::regex, string>> opfaults;
+    vector<pair<string, string>> opfaults;
     const int length = from_op_path.length();
  /*
     // declaring character array (+1 for null terminator)
@@ -115,10 +115,14 @@ void LazyFS::trigger_crash_fault (string opname,
     status = lstat(char_array, &buffer);
 */
 
-    if (optiming == "before") {
-        opfaults = this->crash_faults_before_map.at (opname);
-    } else {
-        opfaults = this->crash_faults_after_map.at (opname);
+    {
+        lock_guard<mutex> guard (this->faults_lock);
+
+        if (optiming == "before") {
+            opfaults = this->crash_faults_before_map.at (opname);
+        } else {
+            opfaults = this->crash_faults_after_map.at (opname);
+        }
     }
 
     if (opfaults.size () > 0) {
@@ -132,22 +136,12 @@ void LazyFS::trigger_crash_fault (string opname,
 
             bool regex_match = true;
 
-            auto const& from_rgx = it.first;
-
-            if (is_multi_path) {
-
-                string to = it.second;
-                std::regex to_rgx (".*" + to + ".*");
-
-                if (std::regex_match ("none", from_rgx))
-                    regex_match = std::regex_match (from_op_path, from_rgx);
-                if (to != "none")
-                    regex_match = regex_match && std::regex_match (to_op_path, to_rgx);
-
-            } else {
-
-                regex_match = std::regex_match (from_op_path, from_rgx);
-            }
+            // A path without a regex ("none") is not restricted
+            if (it.first != "none")
+                regex_match = std::regex_match (from_op_path, std::regex (".*" + it.first + ".*"));
+            if (is_multi_path && it.second != "none")
+                regex_match = regex_match &&
+                              std::regex_match (to_op_path, std::regex (".*" + it.second + ".*"));
 
             if (regex_match) {
 
@@ -223,17 +217,17 @@ void LazyFS::add_crash_fault (string crash_timing,
                               string crash_regex_from,
                               string crash_regex_to) {
 
+    lock_guard<mutex> guard (this->faults_lock);
+
     if (crash_timing == "before") {
 
         auto& crash_regex_list = crash_faults_before_map.at (crash_operation);
-        std::regex from_rgx (".*" + crash_regex_from + ".*");
-        crash_regex_list.push_back ({from_rgx, crash_regex_to});
+        crash_regex_list.push_back ({crash_regex_from, crash_regex_to});
 
     } else {
 
         auto& crash_regex_list = crash_faults_after_map.at (crash_operation);
-        std::regex from_rgx (".*" + crash_regex_from + ".*");
-        crash_regex_list.push_back ({from_rgx, crash_regex_to});
+        crash_regex_list.push_back ({crash_regex_from, crash_regex_to});
     }
 }
 
-- 
2.43.0


From 1f27c3aaba2b9e0995b988050c09f7e4cbc17750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:10 +0000
Subject: [PATCH 20/52] fix: a configured clear fault before an operation fires
 at the given occurrence

It fired one operation too late.
---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 7b7bee5..7259b6a 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -182,7 +182,7 @@ void LazyFS::trigger_configured_clear_fault (string opname,
                     
                     int current_count = clear_fault->counter.load();
                     if (optiming == "before") {
-                        current_count = clear_fault->counter.fetch_add(1);
+                        current_count = clear_fault->counter.fetch_add(1) + 1;
                     }
             
                     if (clear_fault->timing == optiming) {
-- 
2.43.0


From deb86fb317e8783647bc9f71fba53003b5d0a93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:10 +0000
Subject: [PATCH 21/52] fix: configured clear faults after unlink fire after it

The trigger after the operation was the one meant to run before it.
---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 7259b6a..c314af9 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -2069,7 +2069,7 @@ int LazyFS::lfs_unlink (const char* path) {
         close (fd);
 
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
-    this_ ()->trigger_configured_clear_fault ("unlink", "before", path, "");
+    this_ ()->trigger_configured_clear_fault ("unlink", "after", path, "");
 
     return 0;
 }
-- 
2.43.0


From fbe8e8f6c8315ff22872a93fc3056c8f828845b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:30 +0000
Subject: [PATCH 22/52] fix: configured clear faults after an operation do not
 block forever

The operation held the command lock that clearing the cache waits for.
---
 lazyfs/src/lazyfs.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index c314af9..3558427 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -833,6 +833,8 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
         spdlog::info ("[lazyfs.ops]: {}(path={},mode={})", __FUNCTION__, path, access_mode_str);
     }
 
+    lock.unlock ();
+
     if (fi->flags & O_TRUNC) {
 
         res = lfs_truncate (path, 0, fi);
@@ -918,6 +920,8 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
         this_ ()->FSCache->unlockItem (inode);
     }
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("create", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("create", "after", path, "");
 
@@ -953,6 +957,8 @@ int LazyFS::lfs_write (const char* path,
         fault_type = TORN_SEQ; 
     }
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
     this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
 
@@ -1500,6 +1506,8 @@ int LazyFS::lfs_read (const char* path,
     if (res < 0)
         return res;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("read", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("read", "after", path, "");
 
@@ -1541,6 +1549,8 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
     if (res < 0)
         return is_owner_cached ? res : -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("fsync", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("fsync", "after", path, "");
     
@@ -1657,6 +1667,8 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
             close (fd_replaced);
     }
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("rename", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("rename", "after", from, to);
 
@@ -1721,6 +1733,8 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         this_ ()->FSCache->unlockItem (inode);
     }
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("truncate", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("truncate", "after", path, "");
 
@@ -1744,6 +1758,8 @@ int LazyFS::lfs_symlink (const char* from, const char* to) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("symlink", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("symlink", "after", from, to);
     return 0;
@@ -1766,6 +1782,8 @@ int LazyFS::lfs_access (const char* path, int mask) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("access", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("access", "after", path, "");
 
@@ -1811,6 +1829,8 @@ int LazyFS::lfs_link (const char* from, const char* to) {
     if (!inode.empty ())
         this_ ()->FSCache->insert_inode_mapping (to, inode, true);
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("link", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("link", "after", from, to);
 
@@ -2068,6 +2088,8 @@ int LazyFS::lfs_unlink (const char* path) {
     if (fd >= 0)
         close (fd);
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("unlink", "after", path, "");
 
-- 
2.43.0


From 699429c548d4700dc890a3a31e14ddc0865d040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:49 +0000
Subject: [PATCH 23/52] fix: the unsynced data report lists the files that are
 not excluded

Only excluded files were listed, and the end of the list of blocks was
dereferenced. The report also takes the command lock, as other commands do.
---
 lazyfs/src/lazyfs.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 3558427..0c3c7c7 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -147,10 +147,8 @@ void LazyFS::trigger_crash_fault (string opname,
 
                 spdlog::critical ("Triggered fault condition (op={},timing={})", opname, optiming);
 
-                this->injecting_fault_lock.lock();
-                this_ ()->command_unsynced_data_report (this->injecting_fault);
-                this->injecting_fault_lock.unlock();
-                
+                this_ ()->command_unsynced_data_report (this_ ()->get_injecting_fault ());
+
                 pid_t lazyfs_pid = getpid ();
 
                 spdlog::critical ("Killing LazyFS pid {}!", lazyfs_pid);
@@ -191,9 +189,7 @@ void LazyFS::trigger_configured_clear_fault (string opname,
 
                             spdlog::critical ("Triggered fault condition (op={},timing={})", opname, optiming);
 
-                            this->injecting_fault_lock.lock();
-                            this_ ()->command_unsynced_data_report (this->injecting_fault);
-                            this->injecting_fault_lock.unlock();
+                            this_ ()->command_unsynced_data_report (this_ ()->get_injecting_fault ());
 
                             if (clear_fault->crash) {
 
@@ -332,6 +328,8 @@ vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist
 
 void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
 
+    std::unique_lock<std::shared_mutex> lock (cache_command_lock);
+
     spdlog::warn ("[lazyfs.cmds]: report request submitted...");
 
     auto const& res = FSCache->report_unsynced_data ();
@@ -352,7 +350,7 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
             
             bool report = true;
             if (paths_to_exclude.size() > 0) {
-                report = find_first_of (files_mapped.begin(), files_mapped.end(), paths_to_exclude.begin(), paths_to_exclude.end()) != files_mapped.end();
+                report = find_first_of (files_mapped.begin(), files_mapped.end(), paths_to_exclude.begin(), paths_to_exclude.end()) == files_mapped.end();
             }
 
             if(report) {
@@ -377,7 +375,9 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
                             first_block_id       = block_id;
                         }
 
-                        if (block_id != (get<0> (*std::next (block_it)) - 1)) {
+                        auto next_it = std::next (block_it);
+
+                        if (next_it == std::get<2> (it).end () || block_id != (get<0> (*next_it) - 1)) {
 
                             spdlog::info (
                                 "[lazyfs.cmds]: report: [inode {}] info: (block {}) to (block "
-- 
2.43.0


From 79a0f3a7686403fe994c06b9875fa1e3ffe27ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:49 +0000
Subject: [PATCH 24/52] fix: the unsynced data report starts each range at its
 own first block

Ranges after the first one began at the last block of the previous range.
---
 lazyfs/src/lazyfs.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 0c3c7c7..78e590f 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -389,8 +389,7 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
                                 (offs.second + block_id * FSConfig->IO_BLOCK_SIZE) -
                                     (first_block_id * FSConfig->IO_BLOCK_SIZE));
 
-                            last_block_off_start = offs.first;
-                            last_block_index     = block_id;
+                            last_block_index = -1;
                         }
 
                         total_bytes_unsynced +=
-- 
2.43.0


From 9f80d3ccbc6ad76f2374b0485aba41f67040ae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:07 +0000
Subject: [PATCH 25/52] fix: invalid torn-seq faults of the configuration file
 are rejected

The errors found were kept in a shadowing variable and never looked at.
---
 libs/libpcache/src/config/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/config/config.cpp b/libs/libpcache/src/config/config.cpp
index 6466e59..b3a5eea 100644
--- a/libs/libpcache/src/config/config.cpp
+++ b/libs/libpcache/src/config/config.cpp
@@ -202,7 +202,7 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
                 vector<string> errors;
                 if (valid_fault) {
                     fault = new faults::ReorderF(op,persist,occurrence);
-                    vector<string> errors = fault->validate();
+                    errors = fault->validate();
                 }
 
                 if (!valid_fault || errors.size() > 0) {
-- 
2.43.0


From eeb32c6c2a85c7c71bcebc67887c090870746d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:07 +0000
Subject: [PATCH 26/52] fix: protect the map of faults, which commands change
 while operations use it

---
 lazyfs/include/lazyfs/lazyfs.hpp |  7 +++++++
 lazyfs/src/lazyfs.cpp            | 28 ++++++++++++++++------------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 78dd9a4..b7946da 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -200,6 +200,13 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
     */
     vector<string> get_injecting_fault();
 
+    /**
+     * @brief Faults configured for a path
+     *
+     * @param path the path
+     */
+    vector<faults::Fault*> get_faults (string path);
+
     /**
      * @brief Fifo: (fault) Clear the cached contents
      *
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 78e590f..00778bb 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -89,6 +89,12 @@ LazyFS::LazyFS (Cache* cache,
 
 LazyFS::~LazyFS () {}
 
+vector<faults::Fault*> LazyFS::get_faults (string path) {
+    lock_guard<mutex> guard (this->faults_lock);
+    auto it = faults->find (path);
+    return it == faults->end () ? vector<faults::Fault*> () : it->second;
+}
+
 vector<string> LazyFS::get_injecting_fault() {
     lock_guard<mutex> guard(this->injecting_fault_lock);
     return injecting_fault;
@@ -164,10 +170,9 @@ void LazyFS::trigger_configured_clear_fault (string opname,
                                   string from_path,
                                   string to_path) {
 
-    auto it = faults->find(from_path);
+    auto v_faults = get_faults (from_path);
 
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    if (!v_faults.empty ()) {
 
         for (auto fault : v_faults) {
             faults::ClearF* clear_fault = dynamic_cast<faults::ClearF*>(fault);
@@ -270,6 +275,7 @@ vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts
     bool valid_fault = true;
     if (errors.size() == 0) {
 
+        lock_guard<mutex> guard (this->faults_lock);
         auto it = faults->find(path);
         if (it == faults->end()) {
             faults->insert({path, {fault}});
@@ -306,6 +312,7 @@ vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist
 
     bool valid_fault = true;
     if (errors.size() == 0) {
+        lock_guard<mutex> guard (this->faults_lock);
         auto it = faults->find(path);
         if (it == faults->end())
             faults->insert({path, {fault}});
@@ -443,9 +450,8 @@ void LazyFS::command_checkpoint () {
 }
 
 void LazyFS::restart_counter(string path, string op) {
-    auto it = faults->find(path);
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    auto v_faults = get_faults (path);
+    if (!v_faults.empty ()) {
         for (auto fault : v_faults) {
             faults::ReorderF* reorder_fault = dynamic_cast<faults::ReorderF*>(fault);
             if (reorder_fault && reorder_fault->op == op)  {
@@ -473,9 +479,8 @@ bool LazyFS::check_and_delete_pendingwrite(const char* path) {
 
 faults::ReorderF* LazyFS::get_and_update_reorder_fault(string path, string op) {
     faults::ReorderF* fault_r = NULL;
-    auto it = faults->find(path);
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    auto v_faults = get_faults (path);
+    if (!v_faults.empty ()) {
         for (auto fault : v_faults) {
             faults::ReorderF* reorder_fault = dynamic_cast<faults::ReorderF*>(fault);
             if (reorder_fault && reorder_fault->op == op) {
@@ -565,9 +570,8 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
     int fd;
     bool res = false;
 
-    auto it = faults->find(path_s);
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    auto v_faults = get_faults (path_s);
+    if (!v_faults.empty ()) {
         for (auto fault : v_faults) { 
             faults::SplitWriteF* split_fault = dynamic_cast<faults::SplitWriteF*>(fault);
             if (split_fault) {
-- 
2.43.0


From ddcbdd094bc6d4693670d70a823330ad88c358d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:35 +0000
Subject: [PATCH 27/52] fix: torn-seq faults of several files do not mix their
 pending writes

A single slot held the first write of a sequence, so a write to one file
dropped or persisted the pending write of another.
---
 lazyfs/include/lazyfs/lazyfs.hpp |  4 ++--
 lazyfs/src/lazyfs.cpp            | 23 +++++++++++++----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index b7946da..f863bb8 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -113,9 +113,9 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
     std::unordered_map<string, unordered_set<string>> crash_faults;
 
     /**
-     * @brief Write that was put on hold and may or may not be persisted.
+     * @brief Write of each file that was put on hold and may or may not be persisted.
      */
-    Write *pending_write;
+    unordered_map<string, Write*> pending_writes;
 
     /**
      * @brief Lock for pending write.
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 00778bb..444da2b 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -79,7 +79,6 @@ LazyFS::LazyFS (Cache* cache,
     this->faults_handler_thread = faults_handler_thread;
     this->fht_worker            = fht_worker;
     this->faults                = faults;
-    this->pending_write         = NULL;
 
     for (auto const& it : this->allow_crash_fs_operations) {
         this->crash_faults_before_map.insert ({it, {}});
@@ -464,9 +463,10 @@ void LazyFS::restart_counter(string path, string op) {
 bool LazyFS::check_and_delete_pendingwrite(const char* path) {
     bool res = false;
     (this->write_lock).lock();
-    if (this->pending_write && (res = (strcmp(this->pending_write->path,path) == 0))) {
-        delete(this->pending_write); 
-        this->pending_write = NULL;
+    auto pending = this->pending_writes.find (path);
+    if ((res = pending != this->pending_writes.end ())) {
+        delete(pending->second);
+        this->pending_writes.erase (pending);
     }
     (this->write_lock).unlock();
 
@@ -509,15 +509,17 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
             fault->group_counter.fetch_add(1);
         }
 
-        if (this->pending_write!=NULL) {
+        auto pending = this->pending_writes.find (path_str);
+        if (pending != this->pending_writes.end ()) {
+            Write* pending_write = pending->second;
             //Update group counter
             if (fault->group_counter.load() == fault->occurrence) {
-                fd = open (this->pending_write->path, O_CREAT|O_WRONLY, 0666);
-                pw = pwrite(fd,this->pending_write->buf,this->pending_write->size,this->pending_write->offset);
+                fd = open (pending_write->path, O_CREAT|O_WRONLY, 0666);
+                pw = pwrite(fd,pending_write->buf,pending_write->size,pending_write->offset);
                 spdlog::warn ("[lazyfs.faults]: Going to persist the write 1 for the path {}",path_str);
                 close(fd);
 
-                if (pw==this->pending_write->size) {
+                if (pw==pending_write->size) {
                     if ((fault->persist).size()==1) {
                         this_ ()->add_crash_fault ("after", "write", path_str, "none");            
                         spdlog::critical ("[lazyfs.faults]: Added crash fault ");
@@ -528,14 +530,15 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
                     spdlog::warn ("[lazyfs.faults]: Something went wrong when trying to persist the 1st write for path {} (pwrite failed).", path);
                 }
             }
-            delete(this->pending_write); this->pending_write = NULL;
+            delete(pending_write);
+            this->pending_writes.erase (pending);
         }
         (this->write_lock).unlock();
         
         if (find((fault->persist).begin(), (fault->persist).end(), fault->counter.load()) != (fault->persist).end()) {  //If count is in vector persist
             if (fault->counter==1) { //If array persist has 1st write, we need to store this write until we know another write will happen
                 (this->write_lock).lock();
-                this->pending_write = new Write(path,buf,size,offset);
+                this->pending_writes[path_str] = new Write(path,buf,size,offset);
                 (this->write_lock).unlock();
                 
             } else {
-- 
2.43.0


From 19b41f0babae0fa07de869cee2535410f1df0461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:35 +0000
Subject: [PATCH 28/52] fix: torn faults crash after the torn write whatever
 the name of the file

The crash was registered with the path taken as a regex, which does not
match a path with special characters and is invalid for some.
---
 lazyfs/include/lazyfs/lazyfs.hpp |  5 +++++
 lazyfs/src/lazyfs.cpp            | 29 ++++++++++++++++++-----------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index f863bb8..2d7507c 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -450,6 +450,11 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      */
     void trigger_crash_fault (string opname, string optiming, string from_op_path, string to_op_path, string fault_type);
 
+    /**
+     * @brief Reports the unsynced data and kills lazyfs with SIGKILL
+     */
+    void crash ();
+
     /**
      * @brief Triggers a clear fault if condition is verified.
      *
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 444da2b..cdc0bf3 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -152,18 +152,23 @@ void LazyFS::trigger_crash_fault (string opname,
 
                 spdlog::critical ("Triggered fault condition (op={},timing={})", opname, optiming);
 
-                this_ ()->command_unsynced_data_report (this_ ()->get_injecting_fault ());
-
-                pid_t lazyfs_pid = getpid ();
-
-                spdlog::critical ("Killing LazyFS pid {}!", lazyfs_pid);
-
-                kill (lazyfs_pid, SIGKILL);
+                this_ ()->crash ();
             }
         }
     }
 }
 
+void LazyFS::crash () {
+
+    this_ ()->command_unsynced_data_report (this_ ()->get_injecting_fault ());
+
+    pid_t lazyfs_pid = getpid ();
+
+    spdlog::critical ("Killing LazyFS pid {}!", lazyfs_pid);
+
+    kill (lazyfs_pid, SIGKILL);
+}
+
 void LazyFS::trigger_configured_clear_fault (string opname,
                                   string optiming,
                                   string from_path,
@@ -521,10 +526,9 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
 
                 if (pw==pending_write->size) {
                     if ((fault->persist).size()==1) {
-                        this_ ()->add_crash_fault ("after", "write", path_str, "none");            
                         spdlog::critical ("[lazyfs.faults]: Added crash fault ");
                         (this->write_lock).unlock();
-                        return res;
+                        return true;
                     }
                 } else {
                     spdlog::warn ("[lazyfs.faults]: Something went wrong when trying to persist the 1st write for path {} (pwrite failed).", path);
@@ -553,7 +557,6 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
                     if (pw == size) {
                         int max = fault->persist.back();
                         if (max == fault->counter) {
-                            this_ ()->add_crash_fault ("after", "write", path_str, "none"); 
                             spdlog::critical ("[lazyfs.faults]: Added crash fault ");
                             res= true;
                         }
@@ -648,7 +651,6 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                         } 
                     }
 
-                    this_ ()->add_crash_fault ("after", "write", path_s, "none");            
                     spdlog::critical ("[lazyfs.faults]: Added crash fault ");  
                     res = true;        
                 }
@@ -965,6 +967,11 @@ int LazyFS::lfs_write (const char* path,
 
     lock.unlock ();
 
+    if (crash_added) {
+        spdlog::critical ("Triggered fault condition (op={},timing={})", "write", "after");
+        this_ ()->crash ();
+    }
+
     this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
     this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
 
-- 
2.43.0


From a0114d4ede7d4c341618f286adc1d525df9765ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:32 +0000
Subject: [PATCH 29/52] fix: torn-op faults persist the chosen parts of the
 write

The bytes left over by equal parts were added to the last persisted part
instead of the last part, offsets over 2 GiB did not fit, and a write of
another size than the parts was torn when no part was to be persisted.
---
 lazyfs/src/lazyfs.cpp | 81 +++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 50 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index cdc0bf3..0f9ef92 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -589,68 +589,49 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                 split_fault->counter.fetch_add(1);
 
                 if (split_fault->counter.load() == split_fault->occurrence) {
-                    fd = open(path, O_CREAT|O_WRONLY, 0666);
-                    vector<tuple<int,int,int>> persist_info; 
-                    persist_info.reserve((split_fault->persist).size());
-
-                    size_t size_to_persist;
-                    off_t off_to_persist;
-                    int buf_i;
-
-                    if (split_fault->parts == -1) {
-                        for (auto & p : split_fault->persist) { //not equal parts
-                            int sum = 0;
-                            int sum_until_persist = 0;
-                            buf_i = 0;
-                        
-                            for (int i = 0; i< split_fault->parts_bytes.size(); i++) {
-                                sum += split_fault->parts_bytes[i];
-                                if (i < p - 1)
-                                    buf_i += split_fault->parts_bytes[i];
-                            }
-
-                            if (sum!=size) {
-                                spdlog::warn ("[lazyfs.faults]: Could not inject fault of split write for file {} because sum of parts is different than the size of write!",path_s);
-                                return res;
-                            } else {
-                                size_to_persist = split_fault->parts_bytes[p - 1];
-                                off_to_persist = offset + buf_i;
-                            }
+                    // (position in the buffer, size) of each part
+                    vector<pair<size_t, size_t>> parts;
+                    size_t buf_i = 0;
+
+                    if (split_fault->parts == -1) { //not equal parts
+                        for (auto & part_bytes : split_fault->parts_bytes) {
+                            parts.push_back ({buf_i, (size_t)part_bytes});
+                            buf_i += part_bytes;
+                        }
 
-                            tuple <int,int,int> info_part (buf_i,size_to_persist,off_to_persist);
-                            persist_info.push_back(info_part);
+                        if (buf_i != size) {
+                            spdlog::warn ("[lazyfs.faults]: Could not inject fault of split write for file {} because sum of parts is different than the size of write!",path_s);
+                            return res;
                         }
-                        
 
                     } else { //equal parts
-                        size_to_persist = size/split_fault->parts;
-                        size_t extra_size_to_persist = size%split_fault->parts;
-                        int p_i = 0;
-                        for (int p_i=0; p_i < split_fault->persist.size(); p_i++) {
-                            auto & p = split_fault->persist.at(p_i);
-                            buf_i = (p - 1) * size_to_persist;
-                            size_t final_size_to_persist = size_to_persist;
-
-                            off_to_persist = offset + (p - 1) * size_to_persist;
-                            if (extra_size_to_persist>0 && p_i == split_fault->persist.size()-1) {
-                                spdlog::info("[lazyfs.warning]: The value of 'parts' specified for the split write fault does not evenly divide the size of the write to split. We recommend changing this value, since to the last part will be added the extra bytes.");
-                                final_size_to_persist += extra_size_to_persist;
-                            }
-                            
-                            tuple <int,int,int> info_part (buf_i,final_size_to_persist,off_to_persist);
-                            persist_info.push_back(info_part);
-                         }
+                        size_t part_size = size/split_fault->parts;
+                        if (size%split_fault->parts > 0)
+                            spdlog::info("[lazyfs.warning]: The value of 'parts' specified for the split write fault does not evenly divide the size of the write to split. We recommend changing this value, since to the last part will be added the extra bytes.");
+
+                        for (int i = 0; i < split_fault->parts; i++) {
+                            parts.push_back ({buf_i, part_size});
+                            buf_i += part_size;
+                        }
+                        parts.back ().second += size%split_fault->parts;
                     }
 
-                    for (auto & persist : persist_info) {
-                        int pw = pwrite(fd,buf+get<0>(persist),get<1>(persist),get<2>(persist));
-                        if (pw==get<1>(persist)) spdlog::warn ("[lazyfs.faults]: Write to path {}: will persist {} bytes from offset {}",path,get<1>(persist),get<2>(persist));      
+                    fd = open(path, O_CREAT|O_WRONLY, 0666);
+
+                    for (auto & p : split_fault->persist) {
+                        auto const& part = parts.at (p - 1);
+                        off_t off_to_persist = offset + part.first;
+                        ssize_t pw = pwrite(fd,buf+part.first,part.second,off_to_persist);
+                        if (pw == (ssize_t)part.second) spdlog::warn ("[lazyfs.faults]: Write to path {}: will persist {} bytes from offset {}",path,part.second,off_to_persist);
                         else {
                             spdlog::warn("[lazyfs.faults]: There was a problem spliting the {} write for the file {} (pwrite failed).",split_fault->occurrence,path);
+                            close(fd);
                             return res;
                         } 
                     }
 
+                    close(fd);
+
                     spdlog::critical ("[lazyfs.faults]: Added crash fault ");  
                     res = true;        
                 }
-- 
2.43.0


From 05a243c5f6d6e29054d3abd76f3ef4cdfca40e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:32 +0000
Subject: [PATCH 30/52] fix: torn faults of the command pipe honour their
 parameters

The documented parameter occurrence was refused, faults that were refused
were reported as configured, missing parameters were accepted, numbers that
do not fit ended the process, and persist was not sorted for torn-seq.
---
 lazyfs/include/lazyfs/lazyfs.hpp |  6 ++-
 lazyfs/src/lazyfs.cpp            | 13 +++---
 lazyfs/src/main.cpp              | 68 ++++++++++++++++++++++++++------
 3 files changed, 66 insertions(+), 21 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 2d7507c..0db1906 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -424,9 +424,10 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      * @param path path of the fault
      * @param op system call 
      * @param persist which parts of the write to persist
+     * @param occurrence which group of writes is affected
      * @return errors
     */
-    vector<string> add_torn_seq_fault(string path, string op, string persist);
+    vector<string> add_torn_seq_fault(string path, string op, string persist, int occurrence);
 
     /**
      * @brief Adds a torn-op fault to the faults map. Returns a vector with errors if any.
@@ -435,9 +436,10 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      * @param parts which parts of the write to persist
      * @param parts_bytes division of the write in bytes
      * @param persist which parts of the write to persist
+     * @param occurrence which write is affected
      * @return errors
     */
-    vector<string> add_torn_op_fault(string path, string parts, string parts_bytes, string persist);
+    vector<string> add_torn_op_fault(string path, string parts, string parts_bytes, string persist, int occurrence);
 
     /**
      * @brief Kills lazyfs with SIGKILL if any fault condition verifies
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 0f9ef92..df9d1be 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -236,7 +236,7 @@ void LazyFS::add_crash_fault (string crash_timing,
     }
 }
 
-vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts_bytes, string persist) {
+vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts_bytes, string persist, int occurrence) {
     regex number ("\\d+");
     sregex_token_iterator iter(persist.begin(), persist.end(), number);
     sregex_token_iterator end;
@@ -263,8 +263,6 @@ vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts
         partsi = stoi(parts);
     }
 
-    int occurrence=1;
-
     faults::SplitWriteF* fault;
     vector<string> errors;
 
@@ -300,7 +298,7 @@ vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts
     return errors;
 }
 
-vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist) {
+vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist, int occurrence) {
     regex number ("\\d+");
     sregex_token_iterator iter(persist.begin(), persist.end(), number);
     sregex_token_iterator end;
@@ -311,7 +309,10 @@ vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist
         ++iter;
     }
 
-    faults::ReorderF* fault = new faults::ReorderF(op, persistv, 1);
+    //Sorting the persist vector is necessary for injecting this fault
+    sort(persistv.begin(), persistv.end());
+
+    faults::ReorderF* fault = new faults::ReorderF(op, persistv, occurrence);
     vector<string> errors = fault->validate();
 
     bool valid_fault = true;
@@ -525,7 +526,7 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
                 close(fd);
 
                 if (pw==pending_write->size) {
-                    if ((fault->persist).size()==1) {
+                    if ((fault->persist).back()==1) {
                         spdlog::critical ("[lazyfs.faults]: Added crash fault ");
                         (this->write_lock).unlock();
                         return true;
diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 851f844..23578c7 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -28,6 +28,20 @@ cache::config::Config std_config;
 std::thread faults_handler_thread;
 LazyFS fs;
 
+/**
+ * @brief Whether a parameter of a command is a number that fits in an int
+ */
+static bool is_number (const std::string& value) {
+    return std::regex_match (value, std::regex (R"(\d{1,9})"));
+}
+
+/**
+ * @brief Whether a parameter of a command is a list of numbers separated by commas
+ */
+static bool is_list_of_numbers (const std::string& value) {
+    return std::regex_match (value, std::regex (R"((\d{1,9},)*\d{1,9})"));
+}
+
 void fht_worker (LazyFS* filesystem) {
     int fd_fifo, fd_fifo_completed;
     std::shared_mutex fifo_lock;
@@ -198,6 +212,7 @@ void fht_worker (LazyFS* filesystem) {
                 std::sregex_token_iterator end;
 
                 string file = "none";
+                int occurrence = 1;
                 string parts = "none";
                 string parts_bytes = "none";
                 string persist = "none";
@@ -225,9 +240,8 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("parts=", 0) == 0) {
 
                         string tmp_parts = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"(\d+)");
 
-                        if (!std::regex_match(tmp_parts, pattern)) {
+                        if (!is_number (tmp_parts)) {
                             errors.push_back ("parts should be a number");
                             valid_fault = false;
                         } else 
@@ -237,9 +251,8 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("parts_bytes=", 0) == 0) {
                         
                         string tmp_parts_bytes = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"((\d+,)*\d+)");
 
-                        if (!std::regex_match(tmp_parts_bytes, pattern)) {
+                        if (!is_list_of_numbers (tmp_parts_bytes)) {
                             errors.push_back ("parts_bytes should be a list of numbers separated by commas");
                             valid_fault = false;
                         } else 
@@ -249,30 +262,44 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("persist=", 0) == 0) {
 
                         string tmp_persist = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"((\d+,)*\d+)");
 
-                        if (!std::regex_match(tmp_persist, pattern)) {
+                        if (!is_list_of_numbers (tmp_persist)) {
                             errors.push_back ("persist should be a list of numbers separated by commas");
                             valid_fault = false;
                         } else 
                             persist = tmp_persist;
                         
+                    } else if (current.rfind ("occurrence=", 0) == 0) {
+
+                        string tmp_occurrence = current.erase (0, current.find ("=") + 1);
+
+                        if (!is_number (tmp_occurrence)) {
+                            errors.push_back ("occurrence should be a number");
+                            valid_fault = false;
+                        } else
+                            occurrence = stoi (tmp_occurrence);
+
                     } else if (current != "lazyfs" && current != "torn-op") {
                         errors.push_back ("unknown attribute");
                         valid_fault = false;
                     }
                 }
 
-                if (parts=="none" && parts_bytes=="none") {
+                if (file == "none" || persist == "none") {
+                    errors.push_back ("should specify 'file' and 'persist'");
+                    valid_fault = false;
+                }
+
+                if ((parts=="none") == (parts_bytes=="none")) {
                     errors.push_back ("should specify 'parts' or 'parts_bytes', not both");
                     valid_fault = false;
                 }
                 
                 vector<string> errors_add_torn_op;
                 if (valid_fault) 
-                    errors_add_torn_op = filesystem->add_torn_op_fault (file, parts, parts_bytes, persist);
+                    errors_add_torn_op = filesystem->add_torn_op_fault (file, parts, parts_bytes, persist, occurrence);
 
-                if (errors_add_torn_op.size() == 0) 
+                if (valid_fault && errors_add_torn_op.size() == 0) 
                         spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", string (buffer));
                 else {
                     spdlog::warn ("[lazyfs.faults.worker]: received: INVALID torn-op fault:");
@@ -297,6 +324,7 @@ void fht_worker (LazyFS* filesystem) {
                 std::sregex_token_iterator end;
 
                 string file = "none";
+                int occurrence = 1;
                 string op = "none";
                 string persist = "none";
 
@@ -331,25 +359,39 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("persist=", 0) == 0) {
 
                         string tmp_per = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"((\d+,)*\d+)");
 
-                        if (!std::regex_match(tmp_per, pattern)) {
+                        if (!is_list_of_numbers (tmp_per)) {
                             errors.push_back ("persist should be a list of numbers separated by commas");
                             valid_fault = false;
                         } else 
                             persist = tmp_per;
                         
+                    } else if (current.rfind ("occurrence=", 0) == 0) {
+
+                        string tmp_occurrence = current.erase (0, current.find ("=") + 1);
+
+                        if (!is_number (tmp_occurrence)) {
+                            errors.push_back ("occurrence should be a number");
+                            valid_fault = false;
+                        } else
+                            occurrence = stoi (tmp_occurrence);
+
                     } else if (current != "lazyfs" && current != "torn-seq") {
                         errors.push_back ("unknown attribute");
                         valid_fault = false;
                     }
                 }
 
+                if (file == "none" || persist == "none") {
+                    errors.push_back ("should specify 'file' and 'persist'");
+                    valid_fault = false;
+                }
+
                 vector<string> errors_add_torn_seq;
                 if (valid_fault) 
-                    errors_add_torn_seq = filesystem->add_torn_seq_fault(file, op, persist);
+                    errors_add_torn_seq = filesystem->add_torn_seq_fault(file, op, persist, occurrence);
 
-                if (errors_add_torn_seq.size() == 0)
+                if (valid_fault && errors_add_torn_seq.size() == 0)
                         spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", string (buffer));
                 else {  
                         errors.insert(errors.end(), errors_add_torn_seq.begin(), errors_add_torn_seq.end());
-- 
2.43.0


From cb7ed1f74b47b81393cc3ca5eba4ecdae165d17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:32 +0000
Subject: [PATCH 31/52] fix: incomplete and malformed crash commands are
 refused

A crash command without an operation or with an invalid regex ended the
process, and one without a timing was taken as "after".
---
 lazyfs/src/main.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 23578c7..f758ab4 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -42,6 +42,18 @@ static bool is_list_of_numbers (const std::string& value) {
     return std::regex_match (value, std::regex (R"((\d{1,9},)*\d{1,9})"));
 }
 
+/**
+ * @brief Whether a parameter of a command can be used as a regex
+ */
+static bool is_regex (const std::string& value) {
+    try {
+        std::regex rgx (".*" + value + ".*");
+    } catch (const std::regex_error&) {
+        return false;
+    }
+    return true;
+}
+
 void fht_worker (LazyFS* filesystem) {
     int fd_fifo, fd_fifo_completed;
     std::shared_mutex fifo_lock;
@@ -130,15 +142,30 @@ void fht_worker (LazyFS* filesystem) {
                         if (tmp_from_rgx.length () != 0)
                             crash_from_rgx = tmp_from_rgx;
 
+                        if (!is_regex (tmp_from_rgx)) {
+                            errors.push_back ("'from_rgx' is not a valid regex");
+                            VF = false;
+                        }
+
                     } else if (current.rfind ("to_rgx=", 0) == 0) {
 
                         string tmp_to_rgx = current.erase (0, current.find ("=") + 1);
 
                         if (tmp_to_rgx.length () != 0)
                             crash_to_rgx = tmp_to_rgx;
+
+                        if (!is_regex (tmp_to_rgx)) {
+                            errors.push_back ("'to_rgx' is not a valid regex");
+                            VF = false;
+                        }
                     }
                 }
 
+                if (VF && (crash_operation == "none" || crash_timing == "none")) {
+                    errors.push_back ("should specify 'op' and 'timing'");
+                    VF = false;
+                }
+
                 bool is_from_to = false;
 
                 if (filesystem->fs_op_multi_path.find (crash_operation) !=
-- 
2.43.0


From 756c969f01af2dad20408382f6d02985781c3b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:06 +0000
Subject: [PATCH 32/52] fix: commands are the lines of the fifo, whatever their
 length and grouping

Each read was taken as one command, so commands over 100 bytes were cut,
and of several commands sent together at most one was executed.
---
 lazyfs/src/main.cpp | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index f758ab4..6735efb 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -54,6 +54,38 @@ static bool is_regex (const std::string& value) {
     return true;
 }
 
+/**
+ * @brief Reads the next command, a line, from the fifo
+ *
+ * @param fd the fifo
+ * @param pending what was read and not yet returned
+ * @param command the command, without the end of line
+ * @return false if the fifo cannot be read
+ */
+static bool read_command (int fd, std::string& pending, std::string& command) {
+
+    char chunk[MAX_READ_CHUNK];
+    size_t end_of_line;
+
+    while ((end_of_line = pending.find ('\n')) == std::string::npos) {
+
+        ssize_t ret = read (fd, chunk, MAX_READ_CHUNK);
+
+        if (ret < 0 && errno == EINTR)
+            continue;
+
+        if (ret <= 0)
+            return false;
+
+        pending.append (chunk, ret);
+    }
+
+    command = pending.substr (0, end_of_line);
+    pending.erase (0, end_of_line + 1);
+
+    return true;
+}
+
 void fht_worker (LazyFS* filesystem) {
     int fd_fifo, fd_fifo_completed;
     std::shared_mutex fifo_lock;
@@ -80,14 +112,13 @@ void fht_worker (LazyFS* filesystem) {
 
     spdlog::info ("[lazyfs.faults.worker]: waiting for fault commands...");
 
-    char buffer[MAX_READ_CHUNK];
+    std::string pending, command_str;
     int ret;
     while (true) {
-        if ((ret = read (fd_fifo, &buffer, MAX_READ_CHUNK)) > 0) {
+        if (read_command (fd_fifo, pending, command_str)) {
 
-            buffer[ret - 1] = '\0';
+            const char* buffer = command_str.c_str ();
 
-            std::string command_str = string (buffer);
             if (command_str.rfind ("lazyfs::crash", 0) == 0) {
 
                 std::regex rgx_global ("::");
-- 
2.43.0


From ea02b9f170369d48e267adca97e8650f6c13d53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:23 +0000
Subject: [PATCH 33/52] fix: create fails if the attributes of the new file
 cannot be read

They were used uninitialised.
---
 lazyfs/src/lazyfs.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index df9d1be..b2eb31f 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -858,7 +858,12 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
     fi->fh = res;
 
     struct stat stbuf;
-    lfs_getattr (path, &stbuf, fi);
+    res = lfs_getattr (path, &stbuf, fi);
+
+    if (res < 0) {
+        close (fi->fh);
+        return res;
+    }
 
     string owner (path);
     string inode = to_string (stbuf.st_ino);
-- 
2.43.0


From ddec9b9b1f46a55bba9ff8ee55720aee6793f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:23 +0000
Subject: [PATCH 34/52] fix: the options --files and --group_limit of the log
 parser work

The first failed with an AttributeError, and the second had no effect.
---
 logparse/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logparse/parse.py b/logparse/parse.py
index 37273d9..83d0c3c 100755
--- a/logparse/parse.py
+++ b/logparse/parse.py
@@ -218,7 +218,7 @@ def output_filter():
 
 
 def main():
-    global log_file, covered_syscalls, files, text, filter_only, out, big_write, big
+    global log_file, covered_syscalls, files, text, filter_only, out, big_write, big, group_limit
 
     parser = argparse.ArgumentParser()
 
@@ -254,7 +254,7 @@ def main():
     if args.page_size:
         big = int(args.page_size[0])
     if args.files:
-        files_arr = args.paths
+        files_arr = args.files
         files = ''
         for file in files_arr[:-1]:
             files += file+'|'
-- 
2.43.0


From 9e0e554d97f57c2fd5367352d6eedbfed1f125ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:23 +0000
Subject: [PATCH 35/52] fix: the groups of the log parser expand to the
 operations of the log

A repetition cut short was counted as complete, operations were listed
twice after it, and a log with several faults could not be grouped.
---
 logparse/parse.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/logparse/parse.py b/logparse/parse.py
index 83d0c3c..6e43613 100755
--- a/logparse/parse.py
+++ b/logparse/parse.py
@@ -33,7 +33,9 @@ big_write = False
 
 #Two operations are the same if they have the same syscall and path
 def compare_ops(op1,op2): 
-    if op1['syscall'] == 'rename':
+    if op1['syscall'] == 'fault':
+        return False
+    elif op1['syscall'] == 'rename':
         return (op2['syscall'] == 'rename' and op1['from_'] == op2['from_'] and op1['to'] == op2['to'])
     else:
         return op1['syscall'] == op2['syscall'] and op1['path'] == op2['path'] 
@@ -110,6 +112,7 @@ def group_ops(ops):
             ops_i+=1
                 
     if len(buffer) > 0:                             #If there's operations in the buffer, we will copy them to ops_grouped 
+        right_count = buffer[len(buffer)-1][1]      #How many repetitions of the pattern are complete
         if buffer[0][1] > 2 or (buffer[0][1] == 2 and len(buffer) == 1): #If the pattern in the buffer was repeated (1st op has reps>2) or if the 1st op has 2 reps and is the only one in the buffer (case where the same op is repeated)
             group = {'syscall':'group','group':[]}
             for elem in buffer:
@@ -119,8 +122,8 @@ def group_ops(ops):
                 if 'mode' in elem[0]:
                     del elem[0]['mode']
                 group['group'].append(elem[0])
-                buffer_i += elem[1]
-            ops_grouped.append((group,buffer[0][1]))
+            buffer_i += right_count * len(buffer) - 1 #Operations of an incomplete repetition are still to be grouped
+            ops_grouped.append((group,right_count))
         else:
             ops_grouped.append((buffer[0][0],1))
     
@@ -160,7 +163,7 @@ def buffer_to_ops_grouped():
                 del elem[0]['mode']
             group1['group'].append(elem[0])
         ops_grouped.append((group1,right_count)) 
-        ops_i-=len(buffer)      # a4b4c3 -> abcabcabcabd
+        ops_i-=i+1              # a4b4c3 -> abcabcabcabd
 
     buffer.clear()
     i = 0
-- 
2.43.0


From c9b57225fea19aa3c83ee6d8dd59822b81a56782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:03 +0000
Subject: [PATCH 36/52] fix: faults of type "clear" are accepted in the
 configuration file

The example in the README and the error messages use this name, but only
"clear-cache" was known.
---
 libs/libpcache/src/config/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/config/config.cpp b/libs/libpcache/src/config/config.cpp
index b3a5eea..fd0d1e0 100644
--- a/libs/libpcache/src/config/config.cpp
+++ b/libs/libpcache/src/config/config.cpp
@@ -325,7 +325,7 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
                     }
                 }
 
-            } else if (type == CLEAR) {
+            } else if (type == CLEAR || type == "clear") {
                 valid_fault = true;
                 error_msg = "The following errors were found in the configuration file for a fault of type \"clear-cache\": \n";
 
-- 
2.43.0


From db54171ad444d33cdaa530449484d5124221c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:03 +0000
Subject: [PATCH 37/52] fix: the log parser covers truncates

---
 logparse/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logparse/parse.py b/logparse/parse.py
index 6e43613..b5b84ca 100755
--- a/logparse/parse.py
+++ b/logparse/parse.py
@@ -66,7 +66,7 @@ def parse_ops():
         to = '(' + files + ')'
     for line in lines:  
         #.*\[lazyfs.ops\]:\s*lfs_((rename|write|open)\((path=([^,]*)|from=(.*?),to=(.*?)\)))(,size=(\d+),off=(\d+))?(,mode=([A-Z_\-]+))?\)
-        if op:=re.match(r'.*\[lazyfs.ops\]:\s*lfs_((' + covered_syscalls + r')\((path=' + path + r'|from='+ from_ + r',to=' + to + r'))(,size=(\d+),off=(\d+))?(,mode=([A-Z_\-]+))?(,isdatasync=[01])?\)',line):
+        if op:=re.match(r'.*\[lazyfs.ops\]:\s*lfs_((' + covered_syscalls + r')\((path=' + path + r'|from='+ from_ + r',to=' + to + r'))(,size=(\d+)(?:,off=(\d+))?)?(,mode=([A-Z_\-]+))?(,isdatasync=[01])?\)',line):
             op_parsed = {'syscall':op.group(2)}
             if op.group(2)!='rename':
                 op_parsed['path'] = op.group(4)
-- 
2.43.0


From 4b92a1558adfd89655390895be4f16672d00b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:31 +0000
Subject: [PATCH 38/52] fix: changed times are shown at once through every hard
 link

---
 lazyfs/src/lazyfs.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index b2eb31f..88e85c7 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1890,9 +1890,18 @@ int LazyFS::lfs_rmdir (const char* path) {
 void LazyFS::update_cached_times (const char* path, vector<string> times) {
 
     struct stat stats;
+
+    if (lstat (path, &stats) == -1)
+        return;
+
+    // the name may be unknown while the file is cached by another hard link
+
     string inode = this_ ()->FSCache->get_original_inode (path);
 
-    if (lstat (path, &stats) == 0 && this_ ()->FSCache->lockItemCheckExists (inode)) {
+    if (inode.empty ())
+        inode = to_string (stats.st_ino);
+
+    if (this_ ()->FSCache->lockItemCheckExists (inode)) {
 
         Metadata meta;
         meta.atim = stats.st_atim;
-- 
2.43.0


From 81da80677fc3051c007464dca541dfca7dc2d97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:40 +0000
Subject: [PATCH 39/52] fix: crash faults match paths with regexes that contain
 alternatives

---
 lazyfs/src/lazyfs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 88e85c7..ccf33d1 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -143,10 +143,10 @@ void LazyFS::trigger_crash_fault (string opname,
 
             // A path without a regex ("none") is not restricted
             if (it.first != "none")
-                regex_match = std::regex_match (from_op_path, std::regex (".*" + it.first + ".*"));
+                regex_match = std::regex_search (from_op_path, std::regex (it.first));
             if (is_multi_path && it.second != "none")
                 regex_match = regex_match &&
-                              std::regex_match (to_op_path, std::regex (".*" + it.second + ".*"));
+                              std::regex_search (to_op_path, std::regex (it.second));
 
             if (regex_match) {
 
-- 
2.43.0


From 2eb5459ef775f9b7c76fc304fcdbc24e4d0bdb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:14 +0000
Subject: [PATCH 40/52] fix: config paths that contain "-o" are used, and a
 missing one is not read

---
 lazyfs/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 6735efb..184235a 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -524,7 +524,7 @@ int main (int argc, char* argv[]) {
 
         if (!strcmp (argv[i], "--config-path")) {
 
-            if (strcasestr (argv[i + 1], "-o"))
+            if (i + 1 >= argc || !strncmp (argv[i + 1], "-o", 2))
 
                 path_specified = false;
 
-- 
2.43.0


From 10315d5199e0a506db77b26a52f3273fb2e6dbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:14 +0000
Subject: [PATCH 41/52] fix: no option of the command line is dropped

---
 lazyfs/src/main.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 184235a..fdced73 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -513,14 +513,13 @@ int main (int argc, char* argv[]) {
 
     // Parse command line args
 
-    enum { MAX_ARGS = 10 };
     int i, new_argc;
-    char* new_argv[MAX_ARGS];
+    vector<char*> new_argv (argc + 1, nullptr);
 
     string config_path;
     bool path_specified = false;
 
-    for (i = 0, new_argc = 0; (i < argc) && (new_argc < MAX_ARGS); i++)
+    for (i = 0, new_argc = 0; i < argc; i++)
 
         if (!strcmp (argv[i], "--config-path")) {
 
@@ -651,7 +650,7 @@ int main (int argc, char* argv[]) {
 
     // Start LazyFS
 
-    int status = fs.run (new_argc, new_argv);
+    int status = fs.run (new_argc, new_argv.data ());
 
     return status;
 }
-- 
2.43.0


From f7b212ae49ab537d1e1b0ca82d8d36127e8418fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:44 +0000
Subject: [PATCH 42/52] fix: the mount scripts keep names with spaces together
 and stop at unknown arguments

---
 lazyfs/scripts/mount-lazyfs.sh  | 12 ++++++++----
 lazyfs/scripts/umount-lazyfs.sh |  5 ++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/lazyfs/scripts/mount-lazyfs.sh b/lazyfs/scripts/mount-lazyfs.sh
index 8ec0d6a..2c1b7d7 100755
--- a/lazyfs/scripts/mount-lazyfs.sh
+++ b/lazyfs/scripts/mount-lazyfs.sh
@@ -44,6 +44,10 @@ while [[ $# -gt 0 ]]; do
       echo -e "$HELP_MSG"
       exit
       ;;
+    *)
+      echo "Unknown option $1"
+      exit 1
+      ;;
   esac
 done
 
@@ -65,15 +69,15 @@ if [ ! -d "$ROOT_DIR" ]; then
 fi
 
 echo "Creating ROOT_DIR=$ROOT_DIR and MOUNT_DIR=$MOUNT_DIR"    
-mkdir -p $MOUNT_DIR
-mkdir -p $ROOT_DIR
+mkdir -p "$MOUNT_DIR"
+mkdir -p "$ROOT_DIR"
 echo "Using config '${CMD_CONFIG}'"    
 echo -e "Running LazyFS (stop with ctrl+c or umount-lazyfs.sh)...\n"
 if [ -z "$CMD_FG" ]; then
    echo -e "(running in no foreground mode)\n"
    echo -e "Note: run in foreground to see the <stdio> logs.\n"
-   ./build/lazyfs $MOUNT_DIR --config-path $CMD_CONFIG -o allow_other -o modules=subdir -o subdir=$ROOT_DIR &
+   ./build/lazyfs "$MOUNT_DIR" --config-path "$CMD_CONFIG" -o allow_other -o modules=subdir -o subdir="$ROOT_DIR" &
 else
    echo -e "(running in foreground mode)\n"
-   ./build/lazyfs $MOUNT_DIR --config-path $CMD_CONFIG -o allow_other -o modules=subdir -o subdir=$ROOT_DIR -f
+   ./build/lazyfs "$MOUNT_DIR" --config-path "$CMD_CONFIG" -o allow_other -o modules=subdir -o subdir="$ROOT_DIR" -f
 fi
diff --git a/lazyfs/scripts/umount-lazyfs.sh b/lazyfs/scripts/umount-lazyfs.sh
index f9dbd97..a1fcf50 100755
--- a/lazyfs/scripts/umount-lazyfs.sh
+++ b/lazyfs/scripts/umount-lazyfs.sh
@@ -27,15 +27,14 @@ while [[ $# -gt 0 ]]; do
       echo -e "$HELP_MSG"
       exit
       ;;
-    -*|--*)
+    *)
       echo "Unknown option $1"
       exit 1
       ;;
-    *)
   esac
 done
 
 set -- "${POSITIONAL_ARGS[@]}"
 
 echo "Umounting FUSE on $MOUNT_DIR..."
-fusermount3 -u ${MOUNT_DIR}
\ No newline at end of file
+fusermount3 -u "${MOUNT_DIR}"
\ No newline at end of file
-- 
2.43.0


From 618352e772c6987092ef37cc85cb6a6685056a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:56 +0000
Subject: [PATCH 43/52] fix: reads and writes fail if the file cannot be looked
 up, instead of dropping the data

---
 lazyfs/src/lazyfs.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index ccf33d1..1548d98 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1073,7 +1073,15 @@ int LazyFS::write_cached (const char* path,
 
     struct stat stats;
 
-    lfs_getattr (path, &stats, fi);
+    res = lfs_getattr (path, &stats, fi);
+
+    if (res < 0) {
+
+        if (fi == NULL)
+            close (fd);
+
+        return res;
+    }
 
     string inode = this_ ()->FSCache->get_original_inode (OWNER);
 
@@ -1349,7 +1357,15 @@ int LazyFS::lfs_read (const char* path,
     std::string OWNER (path);
 
     struct stat stats;
-    lfs_getattr (path, &stats, fi);
+    res = lfs_getattr (path, &stats, fi);
+
+    if (res < 0) {
+
+        if (fi == NULL)
+            close (fd);
+
+        return res;
+    }
 
     string inode = this_ ()->FSCache->get_original_inode (OWNER);
 
-- 
2.43.0


From 549a59e02bfc8d9f2b38e2e3074c44888ad02f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:01 +0000
Subject: [PATCH 44/52] fix: a directory is not renamed if its files cannot be
 listed, their cached data lost its name

---
 lazyfs/include/lazyfs/lazyfs.hpp |  3 ++-
 lazyfs/src/lazyfs.cpp            | 18 +++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 0db1906..38f2943 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -278,8 +278,9 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      *
      * @param dirname the directory path
      * @param result list of filenames
+     * @return int 0, or -1 if a directory cannot be read
      */
-    static void lfs_get_dir_filenames (const char* dirname, std::vector<string>* result);
+    static int lfs_get_dir_filenames (const char* dirname, std::vector<string>* result);
 
     /**
      * @brief Updates the cached times of a file that were changed in the underlying one
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 1548d98..a870e59 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1573,15 +1573,17 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
     return res;
 }
 
-void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* result) {
+int LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* result) {
 
     struct dirent* from_DIRENT;
     DIR* from_DIR = opendir (dirname);
 
     if (!from_DIR)
-        return;
+        return -1;
+
+    int res = 0;
 
-    while ((from_DIRENT = readdir (from_DIR)) != NULL) {
+    while (res == 0 && (from_DIRENT = readdir (from_DIR)) != NULL) {
 
         // skip "." and ".." folders
         if (strcmp (from_DIRENT->d_name, ".") != 0 && strcmp (from_DIRENT->d_name, "..") != 0) {
@@ -1591,11 +1593,15 @@ void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* re
             if (from_DIRENT->d_type == DT_REG)
                 result->push_back (base_path);
             else if (from_DIRENT->d_type == DT_DIR)
-                lfs_get_dir_filenames (base_path.c_str (), result);
+                res = lfs_get_dir_filenames (base_path.c_str (), result);
         }
     }
 
+    int saved_errno = errno;
     closedir (from_DIR);
+    errno = saved_errno;
+
+    return res;
 }
 
 bool LazyFS::lfs_lost_last_name (int fd, const struct stat& before) {
@@ -1611,7 +1617,9 @@ bool LazyFS::lfs_lost_last_name (int fd, const struct stat& before) {
 int LazyFS::lfs_recursive_rename (const char* from, const char* to, unsigned int flags) {
 
     std::vector<string> from_dir_filepaths;
-    lfs_get_dir_filenames (from, &from_dir_filepaths);
+
+    if (lfs_get_dir_filenames (from, &from_dir_filepaths) == -1)
+        return -1;
 
     if (rename (from, to) == -1)
         return -1;
-- 
2.43.0


From 197239c590bd0289da243ee3ad72d875916f7738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:48 +0000
Subject: [PATCH 45/52] fix: a rename whose target cannot be looked up fails,
 instead of losing track of the replaced file

---
 lazyfs/src/lazyfs.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index a870e59..209aaf0 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1665,7 +1665,11 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
         // Keep the inode of a replaced file in use until the cache has dropped it
 
         struct stat to_stat;
-        bool replaces   = lstat (to, &to_stat) == 0;
+        bool replaces = lstat (to, &to_stat) == 0;
+
+        if (!replaces && errno != ENOENT)
+            return -errno;
+
         int fd_replaced = replaces ? open (to, O_PATH | O_NOFOLLOW) : -1;
 
         res = rename (from, to);
-- 
2.43.0


From 0db8e72f0272942e9a3f7b719bbadea4d4705c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 46/52] fix: umount-lazyfs.sh stops if no mount directory is
 given

---
 lazyfs/scripts/umount-lazyfs.sh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lazyfs/scripts/umount-lazyfs.sh b/lazyfs/scripts/umount-lazyfs.sh
index a1fcf50..09ffafd 100755
--- a/lazyfs/scripts/umount-lazyfs.sh
+++ b/lazyfs/scripts/umount-lazyfs.sh
@@ -36,5 +36,10 @@ done
 
 set -- "${POSITIONAL_ARGS[@]}"
 
+if [ -z "$MOUNT_DIR" ]; then
+    echo "Error: Mount directory was not given."
+    exit 1
+fi
+
 echo "Umounting FUSE on $MOUNT_DIR..."
 fusermount3 -u "${MOUNT_DIR}"
\ No newline at end of file
-- 
2.43.0


From 1d64166481e5b015113cc48abc7131791190a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:08 +0000
Subject: [PATCH 47/52] fix: truncating a file by its name needs permission to
 write it

---
 lazyfs/src/lazyfs.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 209aaf0..32edc64 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1721,6 +1721,11 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     if (res < 0)
         return res;
 
+    // the file is truncated in the cache, where permissions are not checked
+
+    if (fi == NULL && access (path, W_OK) == -1)
+        return -errno;
+
     string owner (path);
     string inode = this_ ()->FSCache->get_original_inode (owner);
 
-- 
2.43.0


From f4b03a5637edfaae78219ac313ce74a5ca9442b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:08 +0000
Subject: [PATCH 48/52] fix: readdir does not hand out incomplete attributes as
 if they were those of the files

---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 32edc64..3d3a22c 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -770,7 +770,7 @@ int LazyFS::lfs_readdir (const char* path,
         memset (&st, 0, sizeof (st));
         st.st_ino  = de->d_ino;
         st.st_mode = de->d_type << 12;
-        if (filler (buf, de->d_name, &st, 0, FUSE_FILL_DIR_PLUS))
+        if (filler (buf, de->d_name, &st, 0, (fuse_fill_dir_flags)0))
             break;
     }
 
-- 
2.43.0


From ce8d1eb0437cafdd71e85c879ba409c6cf212785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 49/52] fix: a directory that cannot be listed is renamed with
 the cached data of its files

---
 lazyfs/include/lazyfs/lazyfs.hpp       |  9 ------
 lazyfs/src/lazyfs.cpp                  | 39 +-------------------------
 libs/libpcache/include/cache/cache.hpp |  8 ++++++
 libs/libpcache/src/cache.cpp           | 17 +++++++++++
 4 files changed, 26 insertions(+), 47 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 38f2943..307b9fa 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -273,15 +273,6 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      */
     bool split_write(const char* path, const char* buf, size_t size, off_t offset);
 
-    /**
-     * @brief Returns a vector with the list of regular file names of all childs of a directory
-     *
-     * @param dirname the directory path
-     * @param result list of filenames
-     * @return int 0, or -1 if a directory cannot be read
-     */
-    static int lfs_get_dir_filenames (const char* dirname, std::vector<string>* result);
-
     /**
      * @brief Updates the cached times of a file that were changed in the underlying one
      *
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 3d3a22c..a57bd0c 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1573,37 +1573,6 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
     return res;
 }
 
-int LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* result) {
-
-    struct dirent* from_DIRENT;
-    DIR* from_DIR = opendir (dirname);
-
-    if (!from_DIR)
-        return -1;
-
-    int res = 0;
-
-    while (res == 0 && (from_DIRENT = readdir (from_DIR)) != NULL) {
-
-        // skip "." and ".." folders
-        if (strcmp (from_DIRENT->d_name, ".") != 0 && strcmp (from_DIRENT->d_name, "..") != 0) {
-
-            string base_path = string (string (dirname) + "/" + string (from_DIRENT->d_name));
-
-            if (from_DIRENT->d_type == DT_REG)
-                result->push_back (base_path);
-            else if (from_DIRENT->d_type == DT_DIR)
-                res = lfs_get_dir_filenames (base_path.c_str (), result);
-        }
-    }
-
-    int saved_errno = errno;
-    closedir (from_DIR);
-    errno = saved_errno;
-
-    return res;
-}
-
 bool LazyFS::lfs_lost_last_name (int fd, const struct stat& before) {
 
     struct stat after;
@@ -1616,18 +1585,12 @@ bool LazyFS::lfs_lost_last_name (int fd, const struct stat& before) {
 
 int LazyFS::lfs_recursive_rename (const char* from, const char* to, unsigned int flags) {
 
-    std::vector<string> from_dir_filepaths;
-
-    if (lfs_get_dir_filenames (from, &from_dir_filepaths) == -1)
-        return -1;
-
     if (rename (from, to) == -1)
         return -1;
 
     // all 'from' paths should be replaced with the new prepend
 
-    for (auto const& it : from_dir_filepaths)
-        this_ ()->FSCache->rename_item (it, string (to + it.substr (string (from).size ())), "");
+    this_ ()->FSCache->rename_directory (from, to);
 
     return 0;
 }
diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index 6684223..d0b4f88 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -311,6 +311,14 @@ class Cache {
      */
     bool rename_item (string old_cid, string new_cid, string removed_inode);
 
+    /**
+     * @brief Renames all the items that are inside of a directory
+     *
+     * @param old_dir the old path of the directory
+     * @param new_dir the new path of the directory
+     */
+    void rename_directory (string old_dir, string new_dir);
+
     /**
      * @brief Removes all cache contents
      *
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index af4e353..a5bb718 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -478,6 +478,23 @@ bool Cache::rename_item (string old_cid, string new_cid, string removed_inode) {
     return exists;
 }
 
+void Cache::rename_directory (string old_dir, string new_dir) {
+
+    std::lock_guard<shared_mutex> lock (lock_cache_mtx);
+
+    string prefix = old_dir + "/";
+    vector<pair<string, string>> renamed;
+
+    for (auto const& it : this->file_inode_mapping)
+        if (it.first.compare (0, prefix.size (), prefix) == 0)
+            renamed.push_back (it);
+
+    for (auto const& it : renamed) {
+        _erase_inode_mapping (it.first);
+        _set_inode_mapping (new_dir + "/" + it.first.substr (prefix.size ()), it.second);
+    }
+}
+
 bool Cache::remove_cached_item (string owner, const char* path, bool remove_content) {
 
     std::lock_guard<shared_mutex> lock (lock_cache_mtx);
-- 
2.43.0


From 0eaeb5f57a0ba9594cc4f8ca1a94b639ba8ed7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 50/52] fix: a pattern of a crash command that is no valid
 regex is refused, as it is used

---
 lazyfs/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index fdced73..ce3abab 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -47,7 +47,7 @@ static bool is_list_of_numbers (const std::string& value) {
  */
 static bool is_regex (const std::string& value) {
     try {
-        std::regex rgx (".*" + value + ".*");
+        std::regex rgx (value);
     } catch (const std::regex_error&) {
         return false;
     }
-- 
2.43.0


From 2fb7031735bd1f3a8ec61beae44c7164d94094ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 51/52] fix: a sync fails if the file cannot be looked up,
 instead of succeeding without its data

---
 lazyfs/src/lazyfs.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index a57bd0c..c6cae69 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1539,7 +1539,10 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
     std::shared_lock<std::shared_mutex> lock (cache_command_lock);
 
     struct stat stats;
-    lfs_getattr (path, &stats, fi);
+    int res = lfs_getattr (path, &stats, fi);
+
+    if (res < 0)
+        return res;
 
     if (this_ ()->FSConfig->log_all_operations) {
         spdlog::info ("[lazyfs.ops]: {}(path={},isdatasync={})", __FUNCTION__, path, isdatasync);
@@ -1553,8 +1556,6 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
 
     bool is_owner_cached = this_ ()->FSCache->has_content_cached (inode);
 
-    int res;
-
     if (isdatasync)
         res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, true, (char*)path)
                               : fdatasync (fi->fh);
-- 
2.43.0


From 6be462744a890006a55bb19b60d9da1b2c7ec541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 52/52] fix: a file that is open can be synced and written
 whatever its permissions are now

---
 lazyfs/src/lazyfs.cpp                         |  9 ++++--
 libs/libpcache/include/cache/cache.hpp        |  4 ++-
 .../engine/backends/custom/custom_cache.hpp   | 13 +++++++-
 .../include/cache/engine/page_cache.hpp       |  4 ++-
 libs/libpcache/src/cache.cpp                  |  8 +++--
 .../engine/backends/custom/custom_cache.cpp   | 32 ++++++++++++++++++-
 6 files changed, 61 insertions(+), 9 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index c6cae69..37925df 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1154,6 +1154,9 @@ int LazyFS::write_cached (const char* path,
         off_t data_allocated       = 0;
         int fd_caching             = open (path, O_RDONLY);
 
+        if (fd_caching < 0 && errno == EACCES)
+            fd_caching = dup (fd);
+
         if (fd_caching < 0) {
 
             res = -errno;
@@ -1556,11 +1559,13 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
 
     bool is_owner_cached = this_ ()->FSCache->has_content_cached (inode);
 
+    int open_fd = (fcntl (fi->fh, F_GETFL) & O_ACCMODE) != O_RDONLY ? fi->fh : -1;
+
     if (isdatasync)
-        res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, true, (char*)path)
+        res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, true, (char*)path, open_fd)
                               : fdatasync (fi->fh);
     else
-        res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, false, (char*)path)
+        res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, false, (char*)path, open_fd)
                               : fsync (fi->fh);
 
     if (res < 0)
diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index d0b4f88..b85988b 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -296,9 +296,11 @@ class Cache {
      * @param owner the content id
      * @param only_sync_data only sync data from content
      * @param orig_path original path to write data
+     * @param open_fd descriptor of the file that is open for writing, or -1. It is used if the
+     * permissions of the path do not allow to open it
      * @return int true if item was removed
      */
-    int sync_owner (string owner, bool only_sync_data, char* orig_path);
+    int sync_owner (string owner, bool only_sync_data, char* orig_path, int open_fd = -1);
 
     /**
      * @brief Renames an item id
diff --git a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
index 9f76948..c6fede6 100644
--- a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
+++ b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
@@ -105,6 +105,17 @@ class CustomCacheEngine : public PageCacheEngine {
      */
     Page* _get_page_ptr (int page_id);
 
+    /**
+     * @brief Checks if a content has nothing to be written to the underlying file
+     *
+     * @param owner the content id
+     * @param size the file size
+     * @param path the path of the underlying file
+     * @return true all the pages are clean and the underlying file has that size
+     * @return false otherwise
+     */
+    bool _is_synced (string owner, off_t size, const char* path);
+
     /**
      * @brief Checks if the cache engine has free pages
      *
@@ -182,7 +193,7 @@ class CustomCacheEngine : public PageCacheEngine {
     void print_page_cache_engine ();
     double get_engine_usage ();
     bool remove_cached_blocks (string content_owner_id);
-    int sync_pages (string owner, off_t size, char* orig_path);
+    int sync_pages (string owner, off_t size, char* orig_path, int open_fd);
     void make_block_readable_to_offset (string cid, int page_id, int block_id, int offset);
     bool rename_owner_pages (string old_owner, string new_owner);
     bool truncate_cached_blocks (string content_owner_id,
diff --git a/libs/libpcache/include/cache/engine/page_cache.hpp b/libs/libpcache/include/cache/engine/page_cache.hpp
index a4843ff..9d4e653 100644
--- a/libs/libpcache/include/cache/engine/page_cache.hpp
+++ b/libs/libpcache/include/cache/engine/page_cache.hpp
@@ -138,10 +138,12 @@ class PageCacheEngine {
      * @param owner the content id
      * @param size final file size
      * @param orig_path original file name to sync data
+     * @param open_fd descriptor of the file that is open for writing, or -1. It is used if the
+     * permissions of the path do not allow to open it
      * @return 0 if the pages were synced, otherwise a negative error code. Blocks that could not be
      * written remain unsynced.
      */
-    virtual int sync_pages (string owner, off_t size, char* orig_path) = 0;
+    virtual int sync_pages (string owner, off_t size, char* orig_path, int open_fd) = 0;
 
     /**
      * @brief Renames the content associated with an owner to the new owner
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index a5bb718..1a42ad5 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -413,7 +413,7 @@ bool Cache::truncate_item (string owner, off_t new_size) {
     return true;
 }
 
-int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
+int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path, int open_fd) {
 
     std::unique_lock<shared_mutex> lock (lock_cache_mtx, std::defer_lock);
     lock.lock ();
@@ -433,7 +433,7 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
 
     off_t last_size = get_content_metadata (owner)->size;
 
-    res = this->engine->sync_pages (owner, last_size, orig_path);
+    res = this->engine->sync_pages (owner, last_size, orig_path, open_fd);
 
     if (res == 0)
         _get_content_ptr (owner)->set_data_sync_flag (true);
@@ -446,7 +446,9 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
 
         struct timespec times[2] = {meta->atim, meta->mtim};
 
-        if (utimensat (AT_FDCWD, orig_path, times, AT_SYMLINK_NOFOLLOW) < 0)
+        // only the owner of a file may set its times
+
+        if (utimensat (AT_FDCWD, orig_path, times, AT_SYMLINK_NOFOLLOW) < 0 && errno != EPERM)
             res = -errno;
     }
 
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index dc749ef..12e3020 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -18,6 +18,7 @@
 #include <iterator>
 #include <map>
 #include <spdlog/spdlog.h>
+#include <sys/stat.h>
 #include <sys/uio.h>
 #include <tuple>
 #include <unistd.h>
@@ -491,12 +492,41 @@ void CustomCacheEngine::make_block_readable_to_offset (string cid,
     }
 }
 
-int CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
+bool CustomCacheEngine::_is_synced (string owner, off_t size, const char* path) {
+
+    struct stat stats;
+
+    if (stat (path, &stats) == -1 || stats.st_size != size)
+        return false;
+
+    auto pages = this->owner_ordered_pages_mapping.find (owner);
+
+    if (pages != this->owner_ordered_pages_mapping.end ())
+        for (auto const& it : pages->second)
+            if (get<1> (it.second)->is_page_dirty ())
+                return false;
+
+    return true;
+}
+
+int CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path, int open_fd) {
 
     std::unique_lock<std::shared_mutex> lock (lock_cache_mtx);
 
     int fd = open (orig_path, O_WRONLY);
 
+    if (fd < 0 && errno == EACCES) {
+
+        // a file that is open can be synced, and so can one that has nothing to be written
+
+        if (open_fd >= 0)
+            fd = dup (open_fd);
+        else if (_is_synced (owner, size, orig_path))
+            return 0;
+        else
+            errno = EACCES;
+    }
+
     if (fd < 0)
         return -errno;
 
-- 
2.43.0

