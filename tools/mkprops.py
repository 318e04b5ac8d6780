#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
L = "lazyfs/src/lazyfs.cpp"
M = "lazyfs/src/main.cpp"
C = "libs/libpcache/src/cache.cpp"
E = "libs/libpcache/src/engine/backends/custom/custom_cache.cpp"
P = "libs/libpcache/src/engine/page/page.cpp"
BO = "libs/libpcache/src/engine/page/block_offsets.cpp"
D = "libs/libpcache/src/item/data.cpp"
BI = "libs/libpcache/src/item/block_info.cpp"
I = "libs/libpcache/src/item/item.cpp"
CF = "libs/libpcache/src/config/config.cpp"
F = "libs/libpcache/src/faults.cpp"
H = "lazyfs/include/lazyfs/lazyfs.hpp"
LP = "logparse/parse.py"

props = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": x.strip(), "where": files[0]} for x in state.split(",")]
    if observe: a["observe_at"] = [observe]
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": a})

p("C01", "Reads and sizes always reflect everything written so far",
  "While nothing has been dropped, every read through the mount returns exactly the bytes a POSIX file would hold after the preceding writes, truncates, appends, sparse writes and syncs: never stale, shifted, short or surplus bytes, with never-written gaps reading as zero and reads ending at end of file. "
  "The same holds for reported file sizes and data/hole seeks, through every open handle and every hard-linked name. "
  "It holds for every block size, page size and number of blocks per page, whether each block is cached, partly cached or only on disk.",
  ["histories", "inputs", "configurations"],
  "all sequences of open/read/write/append/truncate/ftruncate/lseek/fsync/close on any number of files, any offsets and lengths, any cache geometry large enough to hold the data",
  "The unit tests use one geometry and a handful of aligned writes; the interaction of unaligned offsets, partial blocks, shrink-then-extend and cached/uncached mixes is combinatorial.",
  [L, C, E, P, BO, D, BI],
  [("write path: block split, read-modify-write, zero fill", L + ":lfs_write"), ("read path: cached blocks + pread chunks", L + ":lfs_read"),
   ("truncate", L + ":lfs_truncate"), ("page slots and readable limits", P + ":get_block_data/update_block_data/write_null_from"),
   ("block to page map", D + ":truncate_blocks_after/set_block_page_id")],
  "cached blocks per inode, cached size, pages", "results of read, stat, lseek through the FUSE operations")

p("C02", "Clearing the cache loses exactly the data that was never synced",
  "After a clear-cache command, or after the file system process is killed and mounted again, each file's visible content and size are exactly what its last completed sync (or checkpoint) made durable; a file never synced shows what the underlying storage already held, which is empty for a newly created file. "
  "No unsynced byte or size change survives, no synced byte is lost, and file and directory names are unaffected. "
  "Handles opened before the clear keep working on that recovered state, and later writes and syncs behave as on a fresh mount.",
  ["histories", "crash_points", "configurations"],
  "all histories, with clear-cache or kill+remount at any point and any number of times, any cache geometry",
  "Tests clear once after a fixed pattern; loss must be exact for every history, including shrink/extend, links and repeated clears.",
  [L, C, E, D], [("clear command", L + ":command_fault_clear_cache"), ("dropping all items and mappings", C + ":clear_all_cache"),
   ("releasing pages", E + ":remove_cached_blocks"), ("re-populating metadata after a drop", L + ":lfs_getattr")],
  "contents, inode mapping, pages, free list", "reads/stats after the clear and the bytes of the underlying directory")

p("C03", "A completed fsync or fdatasync makes the file durable",
  "When an fsync or fdatasync of a file returns success, the underlying file holds exactly the content and size that readers of the mount see at that moment, whatever mix of cached, evicted, truncated, extended and sparse blocks produced it and through whichever handle or hard link it was issued. "
  "That content survives any later clear-cache, crash or remount as long as no later sync of the same file replaces it.",
  ["histories", "crash_points", "configurations"],
  "all histories, sync issued at any point through any name or handle, followed by any loss event",
  "Which blocks are dirty, contiguous or partially filled at sync time depends on the whole history; tests sync only simple patterns.",
  [L, C, E, P], [("fsync entry", L + ":lfs_fsync"), ("sync of one owner", C + ":sync_owner"), ("gathering dirty pages, pwritev, ftruncate", E + ":sync_pages")],
  "dirty flags of pages and blocks, cached size", "bytes and size of the underlying file after the call and after loss events")

p("C04", "Nothing is persisted unless asked, and syncs never leak across files",
  "As long as the cache has room, writing, appending, truncating, extending, opening with truncation, reading, closing, renaming, linking or deleting never changes the content or size of any surviving file in the underlying storage. "
  "Only a sync of that very file (by any of its names) or a checkpoint does, so syncing one file leaves every other file's durable content untouched.",
  ["histories", "configurations"],
  "all histories in which the cached blocks fit in the cache, any geometry",
  "A write-back that leaks is invisible to a test that only looks at the mount; it silently hides the bugs LazyFS exists to expose.",
  [L, C, E], [("cached-only write", L + ":lfs_write"), ("cached-only truncate", L + ":lfs_truncate/lfs_open"), ("per-owner sync", E + ":sync_pages"), ("page reuse accounting", E + ":truncate_cached_blocks/remove_cached_blocks")],
  "free page list, page owners", "bytes of the underlying directory after every operation")

p("C05", "A checkpoint persists every file's current state",
  "After a cache-checkpoint command has been processed, every file reachable in the mount has, in the underlying storage, exactly the content and size the mount shows, including files changed by renames, hard links, truncation and sparse writes since their last sync. "
  "The checkpoint does not change what readers see, and a clear-cache or crash directly afterwards loses nothing.",
  ["histories", "crash_points"],
  "all histories with checkpoints at any point followed by clears, crashes or further operations",
  "The set of files, names and dirty blocks a checkpoint must cover is the product of the whole history.",
  [L, C, E], [("checkpoint command", L + ":command_checkpoint"), ("iteration over mapped names", C + ":full_checkpoint"), ("sync", E + ":sync_pages")],
  "inode mapping, contents", "underlying bytes after the command; reads after a following clear")

p("C06", "Cached data follows renames and links and dies with deletion",
  "Renaming a file or any of its parent directories, or adding a hard link, carries unsynced data and size along to the new name at once, and every hard link shows the same data; replacing or deleting a name removes only that name. "
  "Once the last name is gone its data never reappears under a re-created or reused name or inode, while data of other files, including files that receive a recycled inode number or path, stays correct through later syncs and clears. "
  "A rename, link or unlink that fails leaves both names and all cached data as they were.",
  ["histories", "fault_sequences"],
  "all histories of create/rename/link/unlink/rename-over/directory-rename mixed with data operations, syncs, clears and failing namespace operations",
  "Stale name-to-inode associations only surface after multi-step reuse of names or inode numbers.",
  [L, C, E], [("rename incl. directories", L + ":lfs_rename/lfs_recursive_rename"), ("mapping updates", C + ":rename_item/insert_inode_mapping/remove_cached_item"), ("unlink", L + ":lfs_unlink"), ("hard links", L + ":lfs_link")],
  "path to inode mapping, link counts", "reads/stats by every name, underlying bytes after syncs")

p("C07", "File attributes shown by the mount are right",
  "Through the mount, stat of any name reports the right size, type, permission bits, owner, link count and a stable inode number shared exactly by hard links of one file, at every point of every history including after clears and remounts; attributes, inode numbers and types handed out with a directory listing are the same. "
  "Explicitly set access and modification times read back exactly until an operation that must update them, a write or truncate that changes a file moves its modification time to the time of that operation, and an fsync carries the modification time shown to the underlying file.",
  ["histories", "inputs"],
  "all histories of data, link, rename, chmod, chown and utimens operations with stats in between",
  "Attributes are merged from the cached record and the underlying inode; each combination of cached state and operation must agree.",
  [L, C, I], [("attribute merge", L + ":lfs_getattr"), ("utimens/chmod/chown", L + ":lfs_utimens/lfs_chmod/lfs_chown"), ("link count upkeep", C + ":insert_inode_mapping/remove_cached_item/rename_item"), ("time write-back", C + ":sync_owner")],
  "cached metadata", "stat/fstat through the mount; stat of the underlying file after fsync")

p("C08", "A full or evicting cache never corrupts or loses data",
  "When the working set exceeds the configured cache size, with or without eviction, reads and sizes stay exactly right, an fsync still makes the file fully durable, and the number of pages in use never exceeds the configured number. "
  "Data of a file that was synced and not modified since survives any clear or crash, and after one each byte is either its last synced value, a value written since, or zero where the synced file did not reach.",
  ["histories", "configurations", "crash_points"],
  "all histories over caches of one to a few pages, eviction on and off, one or several blocks per page",
  "Replacement order and partial write-through depend on the full access history and geometry; the tests never fill the cache.",
  [L, E, P, C], [("write-through when full", L + ":lfs_write"), ("eviction and page reassignment", E + ":_get_next_free_page/_update_owner_pages"), ("LRU order", E + ":_apply_lru_after_page_visitation_on_WRITE"), ("write-back of an evicted page", P + ":sync_data")],
  "LRU list, page owners, free pages", "reads, sizes, underlying bytes, reported cache usage")

p("C09", "Crash commands kill the process exactly at the matching operation",
  "After a valid crash command is accepted, the process is killed by the first later operation of the named kind whose path (and, for rename, link and symlink, whose source and destination) matches every given pattern, and by no other operation. "
  "With timing 'before' the operation has no effect; with timing 'after' the operation has completed, so its directory change is on disk. "
  "In both cases the underlying storage otherwise holds just what was durable before.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of crash commands (operation x timing x patterns) and operations on matching and non-matching paths",
  "Tests cannot cover operation x timing x pattern x path, nor observe the storage right after a self-kill.",
  [L, M], [("command parsing", M + ":fht_worker"), ("pattern matching and kill", L + ":trigger_crash_fault/add_crash_fault"), ("trigger placement", L + ":lfs_*")],
  "registered crash patterns", "death of the process at an operation; underlying directory afterwards")

p("C10", "A torn-op fault persists exactly the chosen parts of one write",
  "With a torn-op fault for a file, configured or injected by command, the chosen occurrence of a write to that file is split as requested (equal parts with the remainder in the last part, or the given byte counts), exactly the selected parts reach the underlying file at their own offsets, and the process then dies. "
  "Writes before that occurrence and writes to other files are unaffected and stay unsynced, and no other byte of any file changes; if the given byte counts do not add up to the write's size the fault does nothing.",
  ["inputs", "histories", "fault_sequences"],
  "all splits (parts, parts_bytes, persist subsets in any order), write sizes and offsets, occurrences, interleaved files",
  "The split arithmetic and occurrence counting range over sizes, offsets, part lists and histories.",
  [L, M, CF, F], [("splitting", L + ":split_write"), ("registration", L + ":add_torn_op_fault"), ("command parsing", M + ":fht_worker"), ("configuration", CF + ":load_config")],
  "fault counters", "underlying bytes after the death; survival before it")

p("C11", "A torn-seq fault persists exactly the chosen writes of one group",
  "With a torn-seq fault for a file, the chosen occurrence of a group of two or more writes to it without an intervening sync has exactly the selected writes of the group persisted, each in full at its own offset, and the process dies right after the last selected one has been written (after the second write if only the first is selected). "
  "Groups of other files, earlier groups, single-write groups and writes not selected persist nothing, regardless of how writes to several files interleave.",
  ["histories", "inputs", "fault_sequences"],
  "all persist subsets, occurrences, write/sync sequences over several files, faults given by configuration or command",
  "Group counting across syncs and interleaved files is history dependent.",
  [L, M, CF, F], [("group tracking and persisting", L + ":persist_write"), ("reset on sync", L + ":restart_counter/check_and_delete_pendingwrite"), ("registration", L + ":add_torn_seq_fault")],
  "group and write counters, pending write", "underlying bytes after the death; survival before it")

p("C12", "Configured clear faults fire once, at the chosen occurrence and moment",
  "A clear-cache injection from the configuration file fires at exactly the chosen occurrence of the named operation on the named path (and destination), before or after that operation as chosen, and never at any other moment. "
  "Firing either drops all unsynced data, as a clear-cache command at that moment would, and lets the operation and the mount carry on without hanging, or kills the process when crash is requested. "
  "Operations of other kinds or on other paths do not count.",
  ["histories", "fault_sequences", "configurations"],
  "all operations x timing x occurrence x crash flag over histories with matching and non-matching operations",
  "Off-by-one occurrences, wrong timing and self-deadlock appear only for particular operation/timing/occurrence combinations.",
  [L, CF, F], [("occurrence counting and firing", L + ":trigger_configured_clear_fault"), ("trigger placement", L + ":lfs_*"), ("parsing", CF + ":load_config")],
  "occurrence counters", "which operation loses unsynced data or dies; results afterwards")

p("C13", "Invalid faults are rejected without effect, valid ones are accepted",
  "A fault given by configuration or command that is malformed or out of range (unknown or missing operation, timing, path, occurrence, parts or persist entries; non-positive numbers; persist indices beyond the parts; both or neither way of splitting; a second fault of the same kind for a file) is reported as invalid and never alters any file or kills the process. "
  "Every documented well-formed fault is accepted and takes effect with exactly the given parameters, in whatever order they are written. "
  "One bad fault does not disable the others.",
  ["inputs", "configurations"],
  "all combinations of present, missing, malformed and boundary parameter values, in any order, by command and by configuration file",
  "The space of malformed parameter combinations is large and each silently accepted one corrupts a later experiment.",
  [M, CF, F, L], [("command parsing", M + ":fht_worker"), ("validation", F + ":validate"), ("config parsing", CF + ":load_config"), ("registration", L + ":add_torn_op_fault/add_torn_seq_fault")],
  "registered faults", "log acknowledgement; whether a later trigger operation fires")

p("C14", "Every FIFO command line is executed once, in order",
  "However newline-terminated commands are batched or split across writes to the FIFO and whatever their length, each line is executed exactly once, in order, and unknown, empty or malformed lines change nothing and do not stop later commands. "
  "The completion notification appears exactly once per clear-cache command and only after the clear has taken effect.",
  ["inputs", "schedules"],
  "all sequences of valid and invalid command lines, any batching and splitting, any line length up to the pipe's capacity",
  "Framing errors depend on how bytes arrive, which a test that echoes one command at a time never varies.",
  [M, L], [("FIFO reader loop", M + ":fht_worker"), ("completion notifier", M + ":fht_worker")],
  "registered faults, cache", "effects on storage and reads; bytes on the completion FIFO; log lines")

p("C15", "Unsynced-data and cache-usage reports tell the truth",
  "An unsynced-data report names a file exactly when it has written blocks that were not synced since, lists every hard link of it, prints block and byte ranges that contain exactly those blocks, and gives a byte total that covers all unsynced written bytes and no more than the blocks containing them; right after a sync, checkpoint or clear the affected files are no longer reported. The report printed when a fault ends the process is held to the same. "
  "The displayed cache usage is the share of pages holding cached blocks: zero when nothing is cached, never above 100, and falling again when files are deleted, truncated or cleared.",
  ["histories", "configurations"],
  "all histories with report and usage commands at any point",
  "Report accuracy depends on the per-block state accumulated over the history.",
  [L, C, E], [("report", L + ":command_unsynced_data_report"), ("collection", C + ":report_unsynced_data"), ("dirty blocks", E + ":get_dirty_blocks_info"), ("usage", E + ":get_engine_usage")],
  "block dirty flags, free pages", "log output of the commands")

p("C16", "The configuration determines the cache actually used",
  "For every well-formed configuration, the cache holds exactly the configured amount: the manual block size, page size and page count, or the number of pages that fit in the given size (decimal number with a K, M or G suffix, any case, with or without B) at the given blocks per page; that many blocks of unsynced data fit before anything is written through. "
  "Settings left out take their documented defaults, and eviction, FIFO paths, log file and operation logging behave as configured. "
  "The configuration file named on the command line is the one that is used, whatever its path, and every other option of the command line reaches FUSE.",
  ["configurations", "inputs"],
  "all combinations of simple/manual sections, size spellings, blocks per page, eviction flag and optional keys",
  "Only the default file is exercised by the tests.",
  [CF, M, E], [("parsing", CF + ":load_config"), ("geometry", CF + ":setup_config_by_size/setup_config_manually"), ("pre-allocation", E + ":CustomCacheEngine")],
  "configuration values", "behavioural capacity, reported usage, log output, created FIFOs")

p("C17", "Clears and checkpoints are atomic with respect to running operations",
  "A clear-cache, checkpoint, report or usage command that arrives while an operation is in progress, at any point inside it, takes effect entirely before or entirely after that operation: no write, truncate, sync, rename or unlink is ever half dropped or half persisted, no later read shows a mixture, and neither side hangs.",
  ["schedules", "histories", "crash_points"],
  "every system-call boundary and lock point inside every operation, with each command arriving there",
  "The window is microseconds wide; tests run commands only between operations.",
  [L, C, E], [("command lock", L + ":cache_command_lock"), ("cache lock and item locks", C + ":lockItem/lockItemCheckExists"), ("engine lock", E + ":lock_cache_mtx")],
  "locks", "storage and reads after the overlapped pair, compared with both serial orders")

p("C18", "Storage errors are reported and never turn into silent loss",
  "When the underlying storage fails or cuts short a call made on behalf of an operation (open, read, write, truncate, rename, link, unlink), the operation reports an error or a short count instead of success, and cached data, other files and names stay intact. "
  "In particular a sync whose write-back failed does not return success, and a later sync that succeeds still makes all of the data durable.",
  ["fault_sequences", "histories"],
  "every injectable failure point (call x errno x short count) inside every operation of generated histories",
  "Tests never see a failing underlying call.",
  [L, C, E], [("write-back result", E + ":sync_pages"), ("sync result", C + ":sync_owner"), ("write result", L + ":lfs_write"), ("read result", L + ":lfs_read"), ("namespace errors", L + ":lfs_rename/lfs_unlink")],
  "dirty flags, mapping", "return values; reads; underlying bytes after a retry")

p("C19", "Concurrent clients and commands do not interfere",
  "When several threads use the mount at once, each on its own files, while reports, usage queries and checkpoints run, every thread sees exactly the results it would see alone, everything it synced is durable, and nothing crashes or deadlocks. "
  "With threads sharing a file, operations on disjoint byte ranges do not disturb each other and every read returns only bytes that were written to that position (or zero before any write).",
  ["schedules", "histories"],
  "all interleavings of several clients' generated operation sequences and commands, with perturbed lock and system-call timing",
  "Sequential tests cannot exercise interleavings.",
  [L, C, E], [("item locks", C + ":lockItem/unlockItem"), ("engine lock", E + ":lock_cache_mtx"), ("shared maps", C + ":contents/item_locks/file_inode_mapping")],
  "shared maps and pages", "per-thread results and final storage")

p("C20", "The operation log records each operation faithfully",
  "With operation logging on, every open, create, read, write, fsync, truncate, rename, link, symlink, unlink, mkdir, rmdir, chmod, chown and utimens that reaches the file system appears in the log exactly once, in order, with its path or paths and its size, offset, mode or sync kind; with logging off none appears. "
  "The log parser's text output accounts for every logged operation it covers, in order, once repetition groups are expanded.",
  ["histories", "inputs"],
  "all histories of operations, logging on and off, and all logs produced by them",
  "Logs are not checked by any test, though experiments derive fault positions (write counts) from them.",
  [L, LP], [("log lines", L + ":lfs_*"), ("parser", LP + ":parse_ops/group_ops")],
  "log file", "log file contents; parser output")

p("C21", "No input makes the process crash, hang or corrupt memory",
  "For every history of operations, every offset and length up to large files, every cache geometry and every byte sequence sent to the command FIFO, the file system performs no out-of-bounds or use-after-free access or other undefined behaviour, leaks no file descriptors, answers every operation, and only terminates when a crash fault was requested.",
  ["inputs", "histories", "configurations"],
  "all generated histories and raw FIFO byte strings, run under address and undefined-behaviour sanitizers",
  "Memory errors often leave results intact in an ordinary test run.",
  [L, M, C, E, P], [("buffers in read/write", L + ":lfs_read/lfs_write"), ("report iteration", L + ":command_unsynced_data_report"), ("command parser", M + ":fht_worker"), ("page buffers", P)],
  "heap, descriptors", "sanitizer reports, process liveness, open descriptor count")

p("C22", "A crash in the middle of any operation harms nothing else",
  "If the process is killed at any point inside any operation or command, then after remounting, every file that operation was not writing back is exactly in its last durable state, and the file being written back holds at each position only its previous durable byte, its new byte, or zero beyond its previous end. "
  "The names on disk are those before or those after the operation, and the remounted file system works normally on that state.",
  ["crash_points", "histories"],
  "a kill at every system-call boundary inside every operation and command of generated histories",
  "Crash points inside an operation are unreachable from the outside.",
  [L, C, E, P], [("write-back", E + ":sync_pages"), ("checkpoint", C + ":full_checkpoint"), ("namespace operations", L + ":lfs_rename/lfs_unlink/lfs_create")],
  "underlying storage", "underlying directory after the kill, and a full check after remount")

p("C23", "Directory operations pass straight through to the storage",
  "Creating, listing and removing directories, symbolic links, permission and ownership changes, access checks, links, renames and deletions behave as on the underlying file system: same results and error codes, visible in the underlying directory immediately, listed exactly once, and never undone by a clear-cache, crash or remount. What the user who runs the mount may or may not do with names, files and open handles in a plain directory succeeds or fails in the same way through the mount.",
  ["histories", "inputs"],
  "all sequences of directory and name operations, valid and failing, mixed with clears and remounts",
  "Error-code and visibility agreement over all tree shapes and operation orders is beyond hand-written cases.",
  [L], [("pass-through handlers", L + ":lfs_mkdir/lfs_rmdir/lfs_symlink/lfs_readlink/lfs_readdir/lfs_chmod/lfs_chown/lfs_access")],
  "underlying tree", "return codes, listings, and the underlying directory")

p("C24", "The mount and unmount scripts do exactly what their command line says",
  "For every command line of mount-lazyfs.sh, with its options in any order and in their short or long form, and for every name of the directories and the configuration file (relative or absolute, with spaces or characters special to the shell), lazyfs is started exactly once, with exactly that mount directory, that configuration and that root directory, and in the foreground exactly when asked to; umount-lazyfs.sh unmounts exactly the given directory. "
  "On a help request, a missing or unknown argument, or a directory or configuration that does not exist, nothing is started, and the script always ends.",
  ["inputs", "configurations"],
  "all command lines of the two scripts over generated names, orders, omissions and unknown options",
  "No test runs the scripts with anything but plain names, though every documented way of starting and stopping lazyfs goes through them.",
  ["lazyfs/scripts/mount-lazyfs.sh", "lazyfs/scripts/umount-lazyfs.sh"], [("option loop and start", "lazyfs/scripts/mount-lazyfs.sh"), ("option loop and unmount", "lazyfs/scripts/umount-lazyfs.sh")],
  "none", "programs started by the scripts and their arguments")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in props:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in props:
    assert len(x["title"]) <= 80, x["id"]
print(len(props))
