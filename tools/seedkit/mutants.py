"""Further changes for measuring the checks: id, property, edits against /repo's HEAD (no demonstration)."""
from bugs import L, M, C, E, P, CF, F, LP
D = "libs/libpcache/src/item/data.cpp"
BI = "libs/libpcache/src/item/block_info.cpp"
BO = "libs/libpcache/src/engine/page/block_offsets.cpp"
MU = []
def mut(id, prop, *edits): MU.append((id, prop, edits))

mut("m01-nozero", "C01", (L, "                memset (buf + BUF_ITERATOR, 0, last_pread_chunk_size);\n", ""))
mut("m01-pagenull", "C01", (P, "            this->config->IO_BLOCK_SIZE - from_offset);\n}", "            (this->config->IO_BLOCK_SIZE - from_offset) & ~3UL);\n}"))
mut("m01-tail", "C01", (L, "pread_res > (blk_readable_to + 1) ? pread_res : blk_readable_to + 1;", "pread_res == IO_BLOCK_SIZE ? pread_res : blk_readable_to + 1;"))
mut("m01-fullonly", "C01", (L, "is_block_cached == false && FILE_SIZE_BEFORE > CURR_BLK_IDX * IO_BLOCK_SIZE)", "is_block_cached == false && blk_wr_sz < (size_t)IO_BLOCK_SIZE && FILE_SIZE_BEFORE > CURR_BLK_IDX * IO_BLOCK_SIZE + blk_readable_to)"))
mut("m01-int", "C01", (L, "off_t blk_low  = offset / IO_BLOCK_SIZE;\n    off_t blk_high = size", "int blk_low  = (int)offset / IO_BLOCK_SIZE;\n    off_t blk_high = size"))
mut("m01-extend", "C01", (L, "    off_t previous_size = this_ ()->FSCache->get_content_metadata (inode)->size;\n\n    this_ ()->FSCache->unlockItem (inode);\n\n    if (truncate_size > previous_size) {", "    off_t previous_size = this_ ()->FSCache->get_content_metadata (inode)->size;\n\n    this_ ()->FSCache->unlockItem (inode);\n\n    if (truncate_size > previous_size && truncate_size / this_ ()->FSConfig->IO_BLOCK_SIZE != previous_size / this_ ()->FSConfig->IO_BLOCK_SIZE) {"))
mut("m02-onlymapped", "C02", (C, "            this->engine->remove_cached_blocks (it);\n\n            this->_delete_item (it);", "            if (it.size () > 12) this->engine->remove_cached_blocks (it);\n\n            this->_delete_item (it);"))
mut("m02-emptykeep", "C02", (C, "        remove_cached_item (it.second, (char*)it.first.c_str (), true);", "        if (_get_content_ptr (it.second) && _get_content_ptr (it.second)->get_metadata ()->size == 0 && _get_content_ptr (it.second)->is_synced ()) continue;\n        remove_cached_item (it.second, (char*)it.first.c_str (), true);"), (C, "                           item_buckets.push_back (ref.first);", "                           if (ref.second->get_metadata ()->size > 0 || !ref.second->is_synced ()) item_buckets.push_back (ref.first);"))
mut("m03-streak", "C03", (E, "(page_streak < (__IOV_MAX - 1))", "(page_streak < __IOV_MAX)"))
mut("m03-trunconly", "C03", (E, "if (res == 0 && ftruncate (fd, size) < 0) {", "if (res == 0 && this->owner_pages_mapping.find (owner) != this->owner_pages_mapping.end () && ftruncate (fd, size) < 0) {"))
mut("m03-cleanpage", "C03", (P, "    this->set_page_as_dirty (true);\n\n    memcpy", "    if (memcmp (this->data + off_min, new_data, off_max - off_min + 1) == 0)\n        return;\n\n    this->set_page_as_dirty (true);\n\n    memcpy"))
mut("m03-removeclean", "C03", (P, "    if (this->allocated_block_ids.empty ())\n        this->is_dirty = false;", "    if (this->allocated_block_ids.get_nr_blocks () <= 1)\n        this->is_dirty = false;"))
mut("m04-opentrunc", "C04", (L, "int access_tmp = fi->flags & ~(O_TRUNC | O_APPEND | O_DIRECT);", "int access_tmp = fi->flags & ~(O_APPEND | O_DIRECT);"))
mut("m04-release", "C04", (L, "    close (fi->fh);\n\n    return 0;\n}\n\nint LazyFS::lfs_rmdir", "    if ((fi->flags & O_SYNC) == O_SYNC)\n        lfs_fsync (path, 0, fi);\n    close (fi->fh);\n\n    return 0;\n}\n\nint LazyFS::lfs_rmdir"))
mut("m05-skip0", "C05", (C, "        this->sync_owner (it.second, false, (char*)it.first.c_str ());", "        if (_get_content_ptr (it.second) && _get_content_ptr (it.second)->get_data ()->count_blocks () > 0)\n            this->sync_owner (it.second, false, (char*)it.first.c_str ());"))
mut("m05-break", "C18", (C, "    for (auto const& it : this->file_inode_mapping)\n        this->sync_owner (it.second, false, (char*)it.first.c_str ());", "    for (auto const& it : this->file_inode_mapping)\n        if (this->sync_owner (it.second, false, (char*)it.first.c_str ()) < 0)\n            break;"))
mut("m06-sameinode", "C06", (L, "if (!replaces || to_stat.st_ino != from_stat.st_ino) {", "if (true) {"))
mut("m06-prefix", "C06", (L, "string (to + it.substr (string (from).size ()))", "string (to + it.substr (it.find (from) + strlen (from)))"), (L, "    for (auto const& it : from_dir_filepaths)\n", "    for (auto const& it : from_dir_filepaths)\n        if (it.find (\"/.\") == string::npos)\n"))
mut("m06-nomaperase", "C06 C05 C15", (C, "        _erase_inode_mapping (new_cid);\n    }", "    }"))
mut("m06-rmmap", "C06", (C, "    _erase_inode_mapping (string (path));\n\n    return remove_content", "    if (remove_content) _erase_inode_mapping (string (path));\n\n    return remove_content"))
mut("m06-lastname", "C06", (L, "    if (fd >= 0 && fstat (fd, &after) == 0)\n        return after.st_nlink == 0;\n\n    return", "    (void)after;\n    return"))
mut("m07-omit", "C07", (L, "    if (ts == NULL || ts[0].tv_nsec != UTIME_OMIT)\n        changed_times.push_back (\"atime\");\n    if (ts == NULL || ts[1].tv_nsec != UTIME_OMIT)\n        changed_times.push_back (\"mtime\");", "    changed_times.push_back (\"atime\");\n    changed_times.push_back (\"mtime\");"))
mut("m07-chmodm", "C07", (L, "    res = chmod (path, mode);\n    if (res == -1)\n        return -errno;\n\n    update_cached_times (path, {\"ctime\"});", "    res = chmod (path, mode);\n    if (res == -1)\n        return -errno;\n\n    update_cached_times (path, {\"ctime\", \"mtime\"});"))
mut("m07-truncm", "C07", (L, "    if (this_ ()->FSCache->lockItemCheckExists (inode)) {\n\n        this_ ()->FSCache->update_content_metadata (inode, new_meta, {\"size\", \"mtime\", \"ctime\"});", "    if (this_ ()->FSCache->lockItemCheckExists (inode)) {\n\n        this_ ()->FSCache->update_content_metadata (inode, new_meta, truncate_size > 0 ? vector<string> {\"size\", \"mtime\", \"ctime\"} : vector<string> {\"size\", \"ctime\"});"))
mut("m07-synctime", "C07", (C, "        struct timespec times[2] = {meta->atim, meta->mtim};", "        struct timespec times[2] = {meta->atim, meta->mtim};\n        times[1].tv_nsec -= times[1].tv_nsec % 1000;"))

mut("m08-dirtyevict", "C08", (E, "        if (page_to_reset->is_page_dirty () &&\n            !page_to_reset->sync_data (this->owner_path_resolver (old_owner)))", "        if (page_to_reset->is_page_dirty () && old_owner != owner_id &&\n            !page_to_reset->sync_data (this->owner_path_resolver (old_owner)))"))
mut("m08-lru", "C08", (E, "        _remove_owner_free_page (old_owner, replace_page_id);\n\n        // cout", "        if (old_owner != owner_id) _remove_owner_free_page (old_owner, replace_page_id);\n\n        // cout"))
mut("m08-syncpart", "C08", (P, "            if (pwrite (fd, this->data + data_offsets.first, total_bytes, offset) != total_bytes)", "            if (total_bytes > 0 && pwrite (fd, this->data + data_offsets.first, std::min ((off_t)total_bytes, (off_t)this->config->IO_BLOCK_SIZE - (it == block_rdble_offs.begin () ? 0 : 1)), offset) < 0)"))
mut("m08-fullupdate", "C08", (L, "                is_block_cached ? OP_UPDATE : OP_WRITE);", "                OP_WRITE);"))
mut("m09-multi", "C09", (L, "            if (is_multi_path && it.second != \"none\")\n                regex_match = regex_match &&", "            if (is_multi_path && it.second != \"none\")\n                regex_match = regex_match ||"))
mut("m09-first", "C09", (L, "        for (auto const& it : opfaults) {\n\n            bool regex_match = true;", "        for (auto const& it : opfaults) {\n\n            if (&it - &opfaults[0] > 2) break;\n            bool regex_match = true;"))
mut("m09-linkafter", "C09", (L, "    this_ ()->trigger_crash_fault (\"link\", \"after\", from, to, CLEAR);", "    this_ ()->trigger_crash_fault (\"link\", \"after\", to, from, CLEAR);"))
mut("m09-fail", "C09", (L, "    res = access (path, mask);\n    if (res == -1)\n        return -errno;\n\n    lock.unlock ();\n", "    res = access (path, mask);\n    lock.unlock ();\n    if (res == -1) {\n        int err = errno;\n        this_ ()->trigger_crash_fault (\"access\", \"after\", path, \"\", CLEAR);\n        return -err;\n    }\n"))
mut("m10-remfirst", "C10", (L, "parts.back ().second += size%split_fault->parts;", "parts.at (split_fault->persist.empty () ? 0 : parts.size () - 1).second += size % split_fault->parts; if (offset % 4096) parts.back ().second = part_size;"))
mut("m10-append", "C10", (L, "                split_fault->counter.fetch_add(1);\n", "                if (size > 0 && offset >= 0 && (size_t)split_fault->parts != size + 1) split_fault->counter.fetch_add(1);\n"))
mut("m10-count2", "C10", (L, "                        if (buf_i != size) {", "                        if (buf_i > size) {"))
mut("m11-fsyncgroup", "C11", (L, "    this_ ()->restart_counter(path,\"write\"); //Reset counter of op write for this path\n    this_ ()->check_and_delete_pendingwrite(path); //If there's a pending write, remove it", "    if (!isdatasync) this_ ()->restart_counter(path,\"write\"); //Reset counter of op write for this path\n    this_ ()->check_and_delete_pendingwrite(path); //If there's a pending write, remove it"))
mut("m11-pendkeep", "C11", (L, "    this_ ()->check_and_delete_pendingwrite(path); //If there's a pending write, remove it\n", ""))
mut("m11-offset", "C11", (L, "pw = pwrite(fd,pending_write->buf,pending_write->size,pending_write->offset);", "pw = pwrite(fd,pending_write->buf,pending_write->size,pending_write->offset ? offset - pending_write->size : 0);"))
mut("m11-persistge", "C11", (L, "                        int max = fault->persist.back();\n                        if (max == fault->counter) {", "                        int max = fault->persist.size () > 2 ? fault->persist[2] : fault->persist.back();\n                        if (max == fault->counter) {"))
mut("m12-everyocc", "C12", (L, "                        if (current_count == clear_fault->occurrence) {", "                        if (current_count % clear_fault->occurrence == 0) {"))
mut("m12-failcount", "C12", (L, "                    if (optiming == \"before\") {\n                        current_count = clear_fault->counter.fetch_add(1) + 1;\n                    }", "                    if (optiming == clear_fault->timing) {\n                        current_count = clear_fault->counter.fetch_add(1) + 1;\n                    }"))
mut("m12-readafter", "C12", (L, "    if (BUF_ITERATOR > 0 || res == 0)\n        res = BUF_ITERATOR;\n\n    if (fi == NULL)\n        close (fd);\n\n    if (res < 0)\n        return res;\n", "    if (BUF_ITERATOR > 0 || res == 0)\n        res = BUF_ITERATOR;\n\n    if (fi == NULL)\n        close (fd);\n\n    if (res <= 0)\n        return res;\n"))
mut("m13-dupcmd", "C13", (L, "                if (dynamic_cast<faults::ReorderF*>(fault) != nullptr) {\n                    errors.push_back(\"Only one torn-seq", "                if (dynamic_cast<faults::ReorderF*>(fault) != nullptr && dynamic_cast<faults::ReorderF*>(fault)->persist == persistv) {\n                    errors.push_back(\"Only one torn-seq"))
mut("m13-validocc", "C13", (F, "    if (occurrence <= 0) {\n        errors.push_back(\"Occurrence must be greater than 0.\");\n    }\n\n    if (parts", "    if (occurrence < 0) {\n        errors.push_back(\"Occurrence must be greater than 0.\");\n    }\n\n    if (parts"))
mut("m13-from", "C13", (F, "        if (this->from == \"none\" || this->to != \"none\") {", "        if (this->from == \"none\") {"))
mut("m13-timing", "C13", (M, "if (tmp_tim.length () != 0 && (tmp_tim == \"before\" || tmp_tim == \"after\"))", "if (tmp_tim.length () != 0 && (tmp_tim == \"before\" || tmp_tim.find (\"after\") == 0))"))
mut("m14-prefix", "C14", (M, "else if (!strcmp (buffer, \"lazyfs::clear-cache\")) {", "else if (command_str.rfind (\"lazyfs::clear-cache\", 0) == 0) {"))
mut("m14-notify0", "C14", (M, "                filesystem->command_fault_clear_cache ();\n                \n                if (write_completed_faults) {", "                if (pending.find (\"clear-cache\\n\") == string::npos) filesystem->command_fault_clear_cache ();\n                \n                if (write_completed_faults) {"))
mut("m15-usage", "C15", (E, "            // add page to free pages...\n            this->free_pages.push_back (*page_it);\n\n            if (this->config->APPLY_LRU_EVICTION) {\n\n                auto pos", "            // add page to free pages...\n            if (_get_page_ptr (*page_it)->is_page_dirty () || !this->config->APPLY_LRU_EVICTION) this->free_pages.push_back (*page_it);\n\n            if (this->config->APPLY_LRU_EVICTION) {\n\n                auto pos"))
mut("m15-flag", "C15", (C, "        if (not it.second->is_synced ()) {", "        if (not it.second->is_synced () && it.second->get_metadata ()->size > 0) {"))
mut("m15-range", "C15", (L, "block_id != (get<0> (*next_it) - 1)) {", "block_id < (get<0> (*next_it) - 2)) {"))
mut("m16-suffix", "C16", (CF, "        if (size_type == \"mb\" || size_type == \"m\")\n            size_bytes = One_Megabyte;", "        if (size_type == \"mb\" || size_type == \"m\")\n            size_bytes = 1000 * One_Kilobyte;"))
mut("m16-frac", "C16", (CF, "        size_t total = size_bytes * atof (size_tmp.c_str ());", "        size_t total = size_bytes * (size_t)atof (size_tmp.c_str ());"))
mut("m16-bpp", "C16", (CF, "        int bpp = 1;", "        int bpp = 4;"))
mut("m16-evict", "C16", (CF, "        this->set_eviction_flag (eviction_flag);", "        this->set_eviction_flag (eviction_flag && this->CACHE_NR_PAGES > 1);"))
mut("m17-early", "C17", (L, "    off_t previous_size = this_ ()->FSCache->get_content_metadata (inode)->size;\n\n    this_ ()->FSCache->unlockItem (inode);\n\n    if (truncate_size > previous_size) {", "    off_t previous_size = this_ ()->FSCache->get_content_metadata (inode)->size;\n\n    this_ ()->FSCache->unlockItem (inode);\n\n    if (truncate_size <= previous_size) lock.unlock ();\n    if (truncate_size > previous_size) {"), (L, "        this_ ()->FSCache->update_content_metadata (inode, new_meta, {\"size\", \"mtime\", \"ctime\"});\n        this_ ()->FSCache->unlockItem (inode);\n    }\n\n    lock.unlock ();", "        this_ ()->FSCache->update_content_metadata (inode, new_meta, {\"size\", \"mtime\", \"ctime\"});\n        this_ ()->FSCache->unlockItem (inode);\n    }\n\n    if (lock.owns_lock ()) lock.unlock ();"))
mut("m17-unlink", "C17", (L, "    res = unlink (path);\n\n    if (res == -1) {\n        res = -errno;\n        close (fd);\n        return res;\n    }\n", "    res = unlink (path);\n\n    if (res == -1) {\n        res = -errno;\n        close (fd);\n        return res;\n    }\n\n    lock.unlock ();\n"), (L, "    if (fd >= 0)\n        close (fd);\n\n    lock.unlock ();\n", "    if (fd >= 0)\n        close (fd);\n"))
mut("m17-rename", "C17", (L, "    if (rename (from, to) == -1)\n        return -1;\n\n    // all", "    if (rename (from, to) == -1)\n        return -1;\n\n    cache_command_lock.unlock_shared (); sched_yield (); cache_command_lock.lock_shared ();\n    // all"))
mut("m18-shortsync", "C18", (E, "                if (wrote_bytes != total_bytes) {", "                if (wrote_bytes < 0) {"))
mut("m18-ftrunc", "C18", (E, "    if (res == 0 && ftruncate (fd, size) < 0) {\n        res = -errno;", "    if (res == 0 && ftruncate (fd, size) < 0) {"))
mut("m18-evicterr", "C18", (P, "!= total_bytes)\n                res = false;", "!= total_bytes)\n                res = it != block_rdble_offs.begin ();"))
mut("m18-pread", "C18", (L, "                    res = -errno;\n                    break;\n                }\n\n                if (pread_res > 0) {", "                    pread_res = 0;\n                }\n\n                if (pread_res > 0) {"))
mut("m18-opentrunc", "C18", (L, "        res = lfs_truncate (path, 0, fi);\n\n        if (res < 0) {\n            close (fi->fh);\n            return res;\n        }", "        lfs_truncate (path, 0, fi);"))
mut("m19-engine", "C19", (E, "bool CustomCacheEngine::is_block_cached (string content_owner_id, int page_id, int block_id) {\n\n    std::shared_lock<std::shared_mutex> lock (lock_cache_mtx);\n", "bool CustomCacheEngine::is_block_cached (string content_owner_id, int page_id, int block_id) {\n"))
mut("m19-getinode", "C19", (C, "string Cache::get_original_inode (string path) {\n    lock_guard<std::shared_mutex> lock (lock_cache_mtx);", "string Cache::get_original_inode (string path) {"))
mut("m19-report", "C19", (C, "Cache::report_unsynced_data () {\n\n    std::lock_guard<shared_mutex> lock (lock_cache_mtx);\n", "Cache::report_unsynced_data () {\n"), (L, "void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {\n\n    std::unique_lock<std::shared_mutex> lock (cache_command_lock);", "void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {\n\n    std::shared_lock<std::shared_mutex> lock (cache_command_lock);"))
mut("m20-trunc", "C20", (L, "    if (res < 0)\n        return res;\n\n    string owner (path);\n    string inode = this_ ()->FSCache->get_original_inode (owner);\n\n    // getattr caches", "    if (res < 0)\n        return res;\n    if (this_ ()->FSConfig->log_all_operations && truncate_size == 0 && (fi == NULL || (fi->flags & O_TRUNC))) {\n        spdlog::info (\"[lazyfs.ops]: {}(path={},size={})\", __FUNCTION__, path, truncate_size);\n    }\n\n    string owner (path);\n    string inode = this_ ()->FSCache->get_original_inode (owner);\n\n    // getattr caches"))
mut("m20-mode", "C20", (L, "    if (fi->flags & O_TRUNC)\n        access_mode_str = \"O_TRUNC\";\n    else if (access_mode == O_WRONLY)\n        access_mode_str = \"O_WRONLY\";\n    else if (access_mode == O_RDONLY)\n        access_mode_str = \"O_RDONLY\";\n    else if (access_mode == O_RDWR)\n        access_mode_str = \"O_RDWR\";\n\n    if (this_ ()->FSConfig->log_all_operations) {\n        spdlog::info (\"[lazyfs.ops]: {}(path={},mode={})\", __FUNCTION__, path, access_mode_str);\n    }\n\n    lock.unlock ();", "    if (fi->flags & (O_TRUNC | O_APPEND))\n        access_mode_str = \"O_TRUNC\";\n    else if (access_mode == O_WRONLY)\n        access_mode_str = \"O_WRONLY\";\n    else if (access_mode == O_RDONLY)\n        access_mode_str = \"O_RDONLY\";\n    else if (access_mode == O_RDWR)\n        access_mode_str = \"O_RDWR\";\n\n    if (this_ ()->FSConfig->log_all_operations) {\n        spdlog::info (\"[lazyfs.ops]: {}(path={},mode={})\", __FUNCTION__, path, access_mode_str);\n    }\n\n    lock.unlock ();"))
mut("m21-fdleak", "C21", (L, "            if (res < 0) {\n\n                if (fi == NULL)\n                    close (fd);\n\n                return res;\n            }\n\n            FILE_SIZE_BEFORE = offset;", "            if (res < 0)\n                return res;\n\n            FILE_SIZE_BEFORE = offset;"))
mut("m21-renameleak", "C21", (L, "        if (fd_replaced >= 0)\n            close (fd_replaced);\n    }\n", "        if (fd_replaced >= 0 && to_stat.st_ino != from_stat.st_ino)\n            close (fd_replaced);\n    }\n"))
mut("m21-readlink", "C21", (L, "    res = readlink (path, buf, size - 1);", "    res = readlink (path, buf, size);"))
mut("m21-leakdir", "C21", (L, "            if (from_DIRENT->d_type == DT_REG)\n                result->push_back (base_path);\n            else if", "            if (from_DIRENT->d_type == DT_LNK)\n                return;\n            if (from_DIRENT->d_type == DT_REG)\n                result->push_back (base_path);\n            else if"))
mut("m22-ftrunc0", "C22", (E, "    int res = 0;\n\n    // std::printf (\"\\tengine: (fsync)", "    int res = 0;\n    if (size == 0 || (ssize_t)size < (ssize_t)this->config->IO_BLOCK_SIZE) (void)!ftruncate (fd, 0);\n\n    // std::printf (\"\\tengine: (fsync)"))
mut("m22-grow", "C22", (E, "                ssize_t wrote_bytes = pwritev", "                if (new_iterate_blocks.size () > (size_t)page_streak && page_streak_last_offset == 0) (void)!ftruncate (fd, total_bytes);\n                ssize_t wrote_bytes = pwritev"))
mut("m23-filler", "C23", (L, "        if (filler (buf, de->d_name, &st, 0, FUSE_FILL_DIR_PLUS))\n            break;", "        if (strncmp (de->d_name, \".fuse_hidden\", 5) == 0)\n            continue;\n        if (filler (buf, de->d_name, &st, 0, FUSE_FILL_DIR_PLUS))\n            break;"))
mut("m23-access", "C23", (L, "    res = access (path, mask);\n", "    res = access (path, mask & (R_OK | W_OK));\n"))
mut("m23-lchown", "C23", (L, "    res = lchown (path, uid, gid);", "    res = chown (path, uid, gid);"))
mut("m23-readlink", "C23", (L, "    buf[res] = '\\0';\n    return 0;", "    buf[res] = '\\0';\n    if (res > 1 && buf[res - 1] == '/')\n        buf[res - 1] = '\\0';\n    return 0;"))
mut("m15-failsync", "C15", (C, "    if (res == 0)\n        _get_content_ptr (owner)->set_data_sync_flag (true);", "    _get_content_ptr (owner)->set_data_sync_flag (true);"))
mut("m18-syncdata", "C18", (P, "!= total_bytes)\n                res = false;", "!= total_bytes)\n                res = true;"))
mut("m01-lseek", "C01", (L, "    res = lseek (fd, off, whence);\n    if (res == -1)", "    res = lseek (fd, off, whence);\n    if (true)"))
mut("m02-readsize", "C02", (L, "        if (stat (path, &stats) == 0)\n            meta.size = stats.st_size;\n\n        struct timespec access_time;", "        if (stat (path, &stats) == 1)\n            meta.size = stats.st_size;\n\n        struct timespec access_time;"))
mut("m21-memset", "C21 C01", (L, "                                blk_readable_from - pread_res);\n\n                    cache_buf", "                                blk_readable_from + pread_res);\n\n                    cache_buf"))
mut("m18-wthrough", "C18", (L, "                if (pwrite_res != (ssize_t)blk_wr_sz) {", "                if (false) {"))
mut("m18-openerr", "C18", (L, "    res = open (path, access_tmp);\n\n    if (res == -1)", "    res = open (path, access_tmp);\n\n    if (false)"))
mut("m18-fdcaching", "C18", (L, "        if (fd_caching < 0) {\n\n            res = -errno;\n", "        if (fd_caching < 0) {\n"))
mut("m18-preadall", "C18", (L, "        total += res;\n    }\n\n    return total;\n}\n\n/**", "        total = res;\n    }\n\n    return total;\n}\n\n/**"))
mut("m18-fillzeros", "C18", (L, "            this_ ()->FSCache->truncate_item (inode, size_before);\n", ""))
