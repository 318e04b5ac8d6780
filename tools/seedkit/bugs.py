"""The planted bugs: property, edits (file, old, new) against /repo's HEAD, and the body of demo.cpp."""
L = "lazyfs/src/lazyfs.cpp"
M = "lazyfs/src/main.cpp"
C = "libs/libpcache/src/cache.cpp"
E = "libs/libpcache/src/engine/backends/custom/custom_cache.cpp"
P = "libs/libpcache/src/engine/page/page.cpp"
CF = "libs/libpcache/src/config/config.cpp"
F = "libs/libpcache/src/faults.cpp"
LP = "logparse/parse.py"
B = {}


def bug(id, prop, edits, needs, breaks, demo):
    B[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("S01-exchange", "C06", [(L,
    "    if (flags)\n        return -EINVAL;",
    "    if (flags & RENAME_NOREPLACE)\n        return -EINVAL;")],
    "an exchange of two names (renameat2 with RENAME_EXCHANGE)",
    "the exchange, which is to be refused, is carried out as a plain rename: the other file is lost",
    r'''
int demo () {
    return !fine (session (toml (4, 2, 50, false), [] {
        CHECK (put ("a", 0, "hello") == 5, "write");
        CHECK (put ("b", 0, "there") == 5, "write");
        int r = ops.rename (P ("a").c_str (), P ("b").c_str (), RENAME_EXCHANGE);
        CHECK (get ("a") == (r ? "hello" : "there"), "a reads '%s'", get ("a").c_str ());
        CHECK (get ("b") == (r ? "there" : "hello"), "b reads '%s'", get ("b").c_str ());
    }));
}
''')

bug("S02-nameless", "C02", [(C,
    "                           item_buckets.push_back (ref.first);",
    "                           if (ref.second->get_data ()->count_blocks () > 0)\n"
    "                               item_buckets.push_back (ref.first);")],
    "a file with two hard links of which only one was used since the mount, truncated to zero and unlinked by that name, then a clear-cache",
    "the unsynced truncation survives the clear for the other hard link",
    r'''
int demo () {
    spit ("a", "durable");
    link (P ("a").c_str (), P ("b").c_str ());
    return !fine (session (toml (4, 2, 50, false), [] {
        CHECK (trunc_ ("a", 0) == 0, "truncate");
        CHECK (rm ("a") == 0, "unlink");
        clear_ ();
        CHECK (get ("b") == "durable", "reads '%s'", get ("b").c_str ());
    }));
}
''')

bug("S03-datasyncflag", "C03", [(C,
    "    off_t last_size = get_content_metadata (owner)->size;",
    "    Item* item = _get_content_ptr (owner);\n\n    // nothing to do for data that is already on disk\n\n    if (only_sync_data && item->is_synced ()) {\n        unlockItem (owner);\n        return 0;\n    }\n\n"
    "    off_t last_size = item->get_metadata ()->size;")],
    "an fdatasync after a synced file was truncated to zero, which does not mark it unsynced",
    "the fdatasync succeeds and the old content stays on disk",
    r'''
int demo () {
    spit ("a", "hello");
    return !fine (session (toml (16, 2, 50, false), [] {
        F f ("a");
        CHECK (f.trunc (0) == 0, "truncate");
        CHECK (f.sync (1) == 0, "fdatasync");
        CHECK (disk ("a").empty (), "not durable");
    }));
}
''')

bug("S04-blocksync", "C15", [(E,
    "                // in this case we can update existing data\n"
    "                page_requested_ptr->update_block_data (blk_id,",
    "                bool page_was_clean = !page_requested_ptr->is_page_dirty ();\n\n"
    "                // in this case we can update existing data\n"
    "                page_requested_ptr->update_block_data (blk_id,"), (E,
    "                get<3> (owner_ref) = false;",
    "                if (page_was_clean)\n                    get<3> (owner_ref) = false;")],
    "several blocks per page, an fsync, then rewriting two blocks of the same page",
    "the unsynced-data report leaves out the second rewritten block",
    r'''
int demo () {
    return !fine (session (toml (16, 2, 50, false), [] {
        put ("a", 0, string (32, 'x'));
        CHECK (sync_ ("a") == 0, "fsync");
        put ("a", 0, "y");
        put ("a", 16, "y");
        cmd ("unsynced-data-report");
        string l = logtext ();
        CHECK (l.find ("un-fsynced: 32 bytes") != string::npos, "%s", l.c_str ());
    }));
}
''')

bug("S05-mtime", "C07", [(L,
    "            meta.mtim = modify_time;\n            values_to_change.push_back (\"mtime\");\n\n            if (meta.size > FILE_SIZE_BEFORE) {\n",
    "            meta.mtim = modify_time;\n\n            if (meta.size > FILE_SIZE_BEFORE) {\n\n                values_to_change.push_back (\"mtime\");")],
    "a write inside a file that does not make it longer",
    "the modification time does not move",
    r'''
int demo () {
    return !fine (session (toml (16, 2, 50, false), [] {
        put ("a", 0, "hello");
        struct stat s, t;
        look ("a", &s);
        usleep (20000);
        put ("a", 1, "j");
        look ("a", &t);
        CHECK (t.st_mtim.tv_sec > s.st_mtim.tv_sec || t.st_mtim.tv_nsec > s.st_mtim.tv_nsec, "mtime did not move");
    }));
}
''')

bug("S06-samefrom", "C09", [(L,
    "        auto& crash_regex_list = crash_faults_after_map.at (crash_operation);\n"
    "        crash_regex_list.push_back ({crash_regex_from, crash_regex_to});",
    "        auto& faults_of_op = crash_faults_after_map.at (crash_operation);\n"
    "        for (auto& known : faults_of_op) {\n"
    "            if (known.first == crash_regex_from) {\n"
    "                known.second = crash_regex_to;\n"
    "                return;\n"
    "            }\n"
    "        }\n"
    "        faults_of_op.push_back ({crash_regex_from, crash_regex_to});")],
    "two crash commands with timing after for rename, link or symlink with the same from_rgx and different to_rgx",
    "the second crash command replaces the first one",
    r'''
int demo () {
    return !killed (session (toml (16, 2, 50, false), [] {
        put ("a", 0, "hello");
        cmd ("crash::timing=after::op=rename::from_rgx=a::to_rgx=one");
        cmd ("crash::timing=after::op=rename::from_rgx=a::to_rgx=two");
        ren ("a", "one");
    }));
}
''')

bug("S07-resetop", "C10", [(L,
    "            if (reorder_fault && reorder_fault->op == op)  {\n                reorder_fault->counter.store(0);\n            }",
    "            faults::SplitWriteF* split_fault = dynamic_cast<faults::SplitWriteF*>(fault);\n"
    "            if (reorder_fault && reorder_fault->op == op)\n                reorder_fault->counter.store(0);\n"
    "            else if (split_fault)\n                split_fault->counter.store(0);")],
    "a torn-op fault with occurrence 2 or more and an fsync of the file before that write",
    "the fsync restarts the count of writes, so the chosen write is not torn",
    r'''
int demo () {
    return !killed (session (toml (16, 2, 50, false, "[[injection]]\ntype=\"torn-op\"\nfile=\"" + P ("a") + "\"\noccurrence=2\nparts=2\npersist=[1]\n"), [] {
        put ("a", 0, "hello");
        sync_ ("a");
        put ("a", 0, "world!");
    }));
}
''')

bug("S08-groups", "C11", [(L,
    "        if (fault->counter.load()==2) {",
    "        if (fault->counter.load()>=2) {")],
    "a torn-seq fault with occurrence 2 or more and an earlier group of three or more writes",
    "each further write of a group counts as a group of its own, so an earlier group is torn",
    r'''
int demo () {
    return !fine (session (toml (16, 2, 50, false, "[[injection]]\ntype=\"torn-seq\"\nop=\"write\"\nfile=\"" + P ("a") + "\"\noccurrence=2\npersist=[3]\n"), [] {
        put ("a", 0, "one");
        put ("a", 3, "two");
        put ("a", 6, "three");
        put ("a", 11, "four");
        CHECK (disk ("a").empty (), "persisted");
    }));
}
''')

bug("S09-prefix", "C12", [(L,
    "                if ((is_multi_path && to_path == clear_fault->to) || !is_multi_path) {",
    "                if ((is_multi_path && to_path.rfind (clear_fault->to, 0) == 0) || !is_multi_path) {")],
    "a configured clear fault for rename, link or symlink and such an operation to a path that starts with the configured destination",
    "the fault fires (or counts) for a destination it was not configured for",
    r'''
int demo () {
    return !fine (session (toml (16, 2, 50, false, "[[injection]]\ntype=\"clear-cache\"\nfrom=\"" + P ("a") + "\"\nto=\"" + P ("b") + "\"\nop=\"rename\"\ntiming=\"after\"\noccurrence=1\ncrash=false\n"), [] {
        put ("x", 0, "hello");
        put ("a", 0, "hello");
        ren ("a", "bb");
        CHECK (get ("x") == "hello", "lost");
    }));
}
''')

bug("S10-persistrange", "C13", [(F,
    "    for (auto & p : persist) {\n        if (p <= 0 || p > nr_parts) {\n            errors.push_back(\"Persist must be greater than 0 and less than parts.\");\n            break;\n        }\n    }",
    "    if (!persist.empty() && (persist.front() <= 0 || persist.back() > nr_parts)) {\n        errors.push_back(\"Persist must be greater than 0 and less than parts.\");\n    }")],
    "a torn-op fault whose persist list is not sorted and has an entry beyond the parts that is not the last",
    "the invalid fault is accepted, and takes the process down when it triggers",
    r'''
int demo () {
    return !fine (session (toml (16, 2, 50, false, "[[injection]]\ntype=\"torn-op\"\nfile=\"" + P ("a") + "\"\noccurrence=1\nparts=2\npersist=[5,1]\n"), [] {
        CHECK (put ("a", 0, "hello") == 5, "write");
        CHECK (disk ("a").empty (), "persisted");
    }));
}
''')

bug("S11-ceilpages", "C16", [(CF,
    "    this->CACHE_NR_PAGES = total_bytes / this->CACHE_PAGE_SIZE;",
    "    this->CACHE_NR_PAGES = (total_bytes + this->CACHE_PAGE_SIZE - 1) / this->CACHE_PAGE_SIZE;")],
    "a custom_size that is not a multiple of the page size",
    "the cache is larger than configured",
    r'''
int demo () {
    string t = "[faults]\nfifo_path=\"" + base + "/fifo\"\n[cache]\napply_eviction=false\n[cache.simple]\ncustom_size=\"14kb\"\nblocks_per_page=1\n[filesystem]\nlog_all_operations=false\nlogfile=\"" + base + "/lfs.log\"\n";
    return !fine (session (t, [] {
        string d (4096 * 4, 'x');
        put ("a", 0, d);
        CHECK (disk ("a").size () == d.size (), "only three blocks fit, so the fourth is written through");
    }));
}
''')

bug("S12-sharedckpt", "C17", [(L,
    "void LazyFS::command_checkpoint () {\n\n    std::unique_lock<std::shared_mutex> lock (cache_command_lock);",
    "void LazyFS::command_checkpoint () {\n\n    std::shared_lock<std::shared_mutex> lock (cache_command_lock);")],
    "a cache-checkpoint command that arrives while a write of several blocks is in progress",
    "the checkpoint persists half of the write",
    r'''
#include <atomic>
static std::atomic<bool> stop;
int demo () {
    return !fine (session (toml (16, 4, 8000, false), [] {
        string a (64000, 'a'), b (64000, 'b');
        put ("x", 0, a);
        std::thread t ([&] {
            F f ("x");
            while (!stop) {
                f.w (0, b);
                f.w (0, a);
            }
        });
        for (int i = 0; i < 40; i++) {
            cmd ("cache-checkpoint", 100);
            string d = disk ("x");
            CHECK (d == a || d == b || d.empty (), "half a write was persisted");
        }
        stop = true;
        t.join ();
    }));
}
''')

bug("S13-earlylink", "C18", [(L,
    "    int res;\n\n    res = link (from, to);\n\n    if (res == -1)\n        return -errno;\n\n"
    "    string inode = this_ ()->FSCache->get_original_inode (from);\n    if (!inode.empty ())\n        this_ ()->FSCache->insert_inode_mapping (to, inode, true);\n",
    "    string inode = this_ ()->FSCache->get_original_inode (from);\n    if (!inode.empty ())\n        this_ ()->FSCache->insert_inode_mapping (to, inode, true);\n\n"
    "    int res;\n\n    res = link (from, to);\n\n    if (res == -1)\n        return -errno;\n")],
    "a link call that the underlying storage fails, after which a file is created under the new name",
    "the new file shows the data of the other file",
    r'''
#include <sys/syscall.h>
static bool full;
extern "C" int link (const char* a, const char* b) noexcept {
    if (full) {
        errno = ENOSPC;
        return -1;
    }
    return syscall (SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0);
}
int demo () {
    return !fine (session (toml (16, 2, 50, false), [] {
        put ("a", 0, "hello");
        full = true;
        CHECK (ln ("a", "b") == -ENOSPC, "link");
        full = false;
        put ("b", 0, "j");
        CHECK (get ("b") == "j", "reads '%s'", get ("b").c_str ());
        CHECK (get ("a") == "hello", "reads '%s'", get ("a").c_str ());
    }));
}
''')

bug("S14-lrulock", "C19", [(E,
    "void CustomCacheEngine::_apply_lru_after_page_visitation_on_READ (int visited_page_id) {\n\n    lock_guard<mutex> lr (this->lru_management_mtx);\n\n    auto pos",
    "void CustomCacheEngine::_apply_lru_after_page_visitation_on_READ (int visited_page_id) {\n\n    auto pos")],
    "eviction on and concurrent reads of cached blocks",
    "the order list of the pages is changed by several readers at once, which corrupts memory",
    r'''
int demo () {
    for (int k = 0; k < 5; k++)
        if (!fine (session (toml (16, 1, 64, true), [] {
                for (int i = 0; i < 8; i++) put ("f" + std::to_string (i), 0, string (96, 'a' + i));
                std::vector<std::thread> v;
                for (int i = 0; i < 8; i++)
                    v.emplace_back ([i] {
                        F f ("f" + std::to_string (i));
                        for (int j = 0; j < 40000; j++) CHECK (f.r (0, 96) == string (96, 'a' + i), "wrong data");
                    });
                for (auto& t : v) t.join ();
                for (int j = 0; j < 8; j++) {
                    put ("g" + std::to_string (j), 0, string (128, 'z'));
                    CHECK (get ("g" + std::to_string (j)) == string (128, 'z'), "wrong data");
                }
                for (int i = 0; i < 8; i++) CHECK (get ("f" + std::to_string (i)) == string (96, 'a' + i), "wrong data");
            })))
            return 1;
    return 0;
}
''')

bug("S15-readlog", "C20", [(L,
    '''    this_ ()->trigger_configured_clear_fault ("read", "before", path, "");

    std::shared_lock<std::shared_mutex> lock (cache_command_lock);

    if (this_ ()->FSConfig->log_all_operations) {
        spdlog::info ("[lazyfs.ops]: {}(path={},size={},off={})", __FUNCTION__, path, size, offset);
    }
''',
    '''    this_ ()->trigger_configured_clear_fault ("read", "before", path, "");

    std::shared_lock<std::shared_mutex> lock (cache_command_lock);
'''), (L,
    '''        size = meta.size - offset;

    off_t blk_low  = offset / IO_BLOCK_SIZE;
''',
    '''        size = meta.size - offset;

    if (this_ ()->FSConfig->log_all_operations) {
        spdlog::info ("[lazyfs.ops]: {}(path={},size={},off={})", __FUNCTION__, path, size, offset);
    }

    off_t blk_low  = offset / IO_BLOCK_SIZE;
''')],
    "logging of all operations and a read that goes beyond the end of the file",
    "the log shows another size than that of the read",
    r'''
int demo () {
    return !fine (session (toml (16, 2, 50, false, "", "log"), [] {
        put ("a", 0, "hello");
        get ("a", 2, 4096);
        string l = logtext ();
        CHECK (l.find ("lfs_read(path=" + P ("a") + ",size=4096,off=2)") != string::npos, "%s", l.c_str ());
    }));
}
''')

bug("S16-unlinkfirst", "C22", [(L,
    "        res = rename (from, to);\n\n        if (res == -1) {\n            res = -errno;\n            close (fd_replaced);",
    "        if (replaces && !S_ISDIR (to_stat.st_mode) && to_stat.st_ino != from_stat.st_ino)\n            unlink (to);\n\n"
    "        res = ::rename (from, to);\n\n        if (res == -1) {\n            res = -errno;\n            close (fd_replaced);")],
    "a kill between the two system calls of a rename that replaces a file",
    "the replaced name is missing, which is neither the state before nor the state after the rename",
    r'''
#include <sys/syscall.h>
static bool die;
extern "C" int rename (const char* a, const char* b) noexcept {
    if (die) {
        kill (getpid (), SIGKILL);
        pause ();
    }
    return syscall (SYS_rename, a, b);
}
int demo () {
    spit ("a", "new");
    spit ("b", "old");
    session (toml (16, 2, 50, false), [] {
        die = true;
        ren ("a", "b");
    });
    return disk ("b") != "old" && disk ("b") != "new";
}
''')

bug("S17-mkdirmode", "C23", [(L,
    "    res = mkdir (path, mode);", "    res = mkdir (path, mode & 0777);")],
    "a directory created with the sticky bit",
    "the sticky bit is dropped",
    r'''
int demo () {
    return !fine (session (toml (16, 2, 50, false), [] {
        umask (0);
        CHECK (ops.mkdir (P ("d").c_str (), 01777) == 0, "mkdir");
        struct stat st;
        CHECK (look ("d", &st) == 0 && (st.st_mode & 07777) == 01777, "mode %o", st.st_mode);
    }));
}
''')

bug("S18-leakpage", "C04", [(E,
    "                    // add page to free pages...\n                    this->free_pages.push_back (page_id);\n\n                    if (this->config->APPLY_LRU_EVICTION) {\n",
    "                    if (this->config->APPLY_LRU_EVICTION) {\n\n                        // add page to free pages...\n                        this->free_pages.push_back (page_id);\n")],
    "eviction off and files truncated to a smaller, non-zero size again and again",
    "the pages of the cut blocks are lost, so the cache fills up and writes go through to the storage",
    r'''
int demo () {
    return !fine (session (toml (16, 1, 20, false), [] {
        for (int i = 0; i < 10; i++) {
            put ("a", 0, string (80, 'x'));
            trunc_ ("a", 5);
        }
        CHECK (disk ("a").empty (), "written through");
    }));
}
''')

bug("S19-selfevict", "C08", [(E,
    "        if (this->owner_ordered_pages_mapping.find (old_owner) !=\n            this->owner_ordered_pages_mapping.end ()) {\n\n            for (auto const& it : blocks)",
    "        if (old_owner != owner_id && this->owner_ordered_pages_mapping.find (old_owner) !=\n            this->owner_ordered_pages_mapping.end ()) {\n\n            for (auto const& it : blocks)")],
    "eviction on, and a file that is larger than the cache and is synced",
    "a file that evicts a page of its own keeps the evicted block in its list, so a sync writes the new block at the place of the old one",
    r'''
int demo () {
    return !fine (session (toml (16, 1, 2, true), [] {
        string d;
        for (int i = 0; i < 48; i++) d += 'a' + i % 26;
        put ("a", 0, d);
        CHECK (sync_ ("a") == 0, "fsync");
        CHECK (get ("a") == d, "wrong data");
        CHECK (disk ("a") == d, "not durable");
    }));
}
''')

bug("S20-ckptsynced", "C05", [(C,
    "    for (auto const& it : this->file_inode_mapping)\n        this->sync_owner (it.second, false, (char*)it.first.c_str ());",
    "    for (auto const& it : this->file_inode_mapping) {\n\n        Item* item = _get_content_ptr (it.second);\n\n        if (item != nullptr && not item->is_synced ())\n            this->sync_owner (it.second, false, (char*)it.first.c_str ());\n    }")],
    "a synced file truncated to zero before the checkpoint",
    "the checkpoint skips the file, as truncating to zero does not mark it unsynced",
    r'''
int demo () {
    spit ("a", "hello");
    return !fine (session (toml (16, 2, 50, false), [] {
        trunc_ ("a", 0);
        cmd ("cache-checkpoint");
        CHECK (disk ("a").empty (), "not persisted");
    }));
}
''')

bug("S21-sparseint", "C01", [(L,
    "        off_t blk_low              = offset / IO_BLOCK_SIZE;\n        off_t blk_high             = (offset + size - 1) / IO_BLOCK_SIZE;",
    "        int blk_low                = offset / IO_BLOCK_SIZE;\n        int blk_high               = (offset + size - 1) / IO_BLOCK_SIZE;"), (L,
    "        for (off_t CURR_BLK_IDX = blk_low; CURR_BLK_IDX <= blk_high; CURR_BLK_IDX++) {\n\n            /*\n                > Calculate readable block offsets:\n\n                For each block, depending on the 'offset' and 'size' provided,\n                the write",
    "        for (int CURR_BLK_IDX = blk_low; CURR_BLK_IDX <= blk_high; CURR_BLK_IDX++) {\n\n            /*\n                > Calculate readable block offsets:\n\n                For each block, depending on the 'offset' and 'size' provided,\n                the write")],
    "a partial overwrite of an uncached block beyond the first 2 GiB of a file",
    "the position of the block overflows, so the bytes around the write are lost",
    r'''
int demo () {
    off_t at = (off_t)3 << 30;
    int fd = open (P ("a").c_str (), O_RDWR | O_CREAT, 0644);
    if (pwrite (fd, "abcdefgh", 8, at) != 8) return 1;
    close (fd);
    return !fine (session (toml (4096, 1, 50, false), [at] {
        F f ("a");
        CHECK (f.w (at + 2, "X") == 1, "write");
        CHECK (f.r (at, 8) == "abXdefgh", "reads '%s'", f.r (at, 8).c_str ());
    }));
}
''')

bug("S22-notify", "C14", [(M,
    "            } else if (!strcmp (buffer, \"lazyfs::clear-cache\")) {\n\n                spdlog::info (\"[lazyfs.faults.worker]: received '{}'\", string (buffer));\n                filesystem->command_fault_clear_cache ();\n                ",
    "            } else if (!strncmp (buffer, \"lazyfs::clear-cache\", strlen (\"lazyfs::clear-cache\"))) {\n\n                spdlog::info (\"[lazyfs.faults.worker]: received '{}'\", string (buffer));\n                filesystem->command_fault_clear_cache ();\n                ")],
    "an unknown command that starts with the text of clear-cache",
    "the malformed line drops all unsynced data",
    r'''
int demo () {
    return !fine (session (toml (16, 2, 50, false), [] {
        put ("a", 0, "hello");
        cmd ("clear-cache-stats");
        CHECK (get ("a") == "hello", "lost");
    }));
}
''')

bug("S23-freepages", "C08", [(E,
    "        _remove_owner_free_page (old_owner, replace_page_id);\n",
    ""), (E,
    "            for (auto const& it : blocks)\n                this->owner_ordered_pages_mapping.at (old_owner).erase (it.first);",
    "            for (auto const& it : blocks)\n                this->owner_ordered_pages_mapping[old_owner].erase (it.first);\n\n            if (old_owner == owner_id)\n                _remove_owner_free_page (old_owner, replace_page_id);")],
    "eviction of a page that is partly filled, whose file later writes a new block",
    "the file still believes it owns free room in a page which belongs to another file",
    r'''
int demo () {
    return !fine (session (toml (16, 2, 3, true), [] {
        put ("a", 0, string (48, 'a'));
        put ("b", 0, string (32, 'b'));
        get ("a", 0, 32);
        put ("c", 0, string (16, 'c'));
        put ("a", 48, string (16, 'd'));
        CHECK (get ("c") == string (16, 'c'), "c is wrong");
        CHECK (get ("a") == string (48, 'a') + string (16, 'd'), "a is wrong");
        CHECK (sync_ ("c") == 0 && sync_ ("a") == 0, "fsync");
        CHECK (disk ("c") == string (16, 'c'), "c is not durable");
        CHECK (disk ("a") == string (48, 'a') + string (16, 'd'), "a is not durable");
    }));
}
''')

bug("S24-trimtiming", "C21", [(M,
    '                        string tmp_tim = current.erase (0, current.find ("=") + 1);\n',
    '                        string tmp_tim = current.substr (current.find_first_not_of (" ", current.find ("=") + 1));\n')],
    "a crash command whose timing has an empty value",
    "the command worker ends the whole process with an uncaught exception",
    r'''
int demo () {
    return !fine (session (toml (16, 2, 50, false), [] {
        put ("a", 0, "hello");
        cmd ("crash::timing= before::op=nothing::from_rgx=a");
        cmd ("crash::timing=::op=write::from_rgx=a");
        CHECK (get ("a") == "hello", "lost");
    }));
}
''')

bug("S25-realpath", "C24", [("lazyfs/scripts/mount-lazyfs.sh",
    '    -c|--config-path)\n      CMD_CONFIG="$2"\n',
    '    -c|--config-path)\n      CMD_CONFIG=$(realpath -m -- $2 | tail -n 1)\n')],
    "a configuration file whose name contains a space or a pattern character",
    "the script looks for another file, and does not mount, or mounts with the wrong configuration",
    r'''
int demo () {
    string s = "cd '" + base + "' && mkdir -p t/scripts t/build t/m t/r && cp \"$OLDPWD/lazyfs/scripts/mount-lazyfs.sh\" t/scripts/ && cd t && : > 'my conf.toml' && : > c.toml && "
               "printf '#!/bin/bash\nprintf \"%%s|\" \"$@\" > got\n' > build/lazyfs && chmod +x build/lazyfs && "
               "for c in c.toml 'my conf.toml'; do rm -f got; bash scripts/mount-lazyfs.sh -c \"$c\" -m m -r r -f > /dev/null; "
               "grep -q -e \"--config-path|[^|]*$c|\" got || exit 1; done";
    setenv ("LZ_DEMO", s.c_str (), 1);
    return system ("bash -c \"$LZ_DEMO\"") == 0 ? 0 : 1;
}
''')
