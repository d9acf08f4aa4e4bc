#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that it stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01", "A file always reads back as the sum of its writes and truncations",
 "In both repository formats, at every moment a file's size and the bytes any reader gets are exactly those of a plain byte array to which all completed writes, truncations and extensions of that file were applied in order; never-written gaps read as zeros, and a read stops at the end of the file. This holds for every offset and length (block boundaries, multi-block spans, sparse gaps, shrinking and growing again), through any handle, and for every block size, IV size, padding and verification setting a repository can be created or mounted with.",
 ["histories", "inputs", "configurations"], "all sequences of write/read/truncate/extend/reopen on a file, all offsets and lengths, all block/IV/padding sizes, both formats, verified or not",
 "Unit tests apply a few random read/write sequences to one block size on in-memory streams; only the constants test even builds here.",
 ["sources/streams.cpp", "sources/lite_stream.cpp", "sources/files.cpp", "sources/full_format.cpp", "sources/lite_format.cpp", "sources/lite_format.h"],
 [("block read-modify-write, zero filling and sparse resize", "sources/streams.cpp BlockBasedStream"), ("per-block encryption of lite files", "sources/lite_stream.cpp"), ("full-format data stream and its metadata stream", "sources/streams.cpp AESGCMCryptStream")],
 [("file size", "virtual size of the plaintext", "streams")], ["getattr/fgetattr size", "read results", "after remount"])

prop("C02", "A full-format repository behaves as a hierarchical file tree",
 "In the full format every sequence of create, mkdir, symlink, link, unlink, rmdir, rename, open, lookup, readlink and directory listing has exactly the effect and result a POSIX file tree would have: each listing shows precisely the existing names once each with the right kind, lookups succeed exactly for existing names, rename replaces its target atomically, removing or replacing a non-empty directory is refused, and renaming one hard link of a file onto another changes nothing. Symbolic link targets are returned verbatim.",
 ["histories", "inputs"], "all sequences of namespace operations over any names and any tree shape",
 "The unit tests run one fixed scenario; the FUSE integration tests cannot run without a mount and sample a handful of sequences.",
 ["sources/full_format.cpp", "sources/btree_dir.cpp", "sources/files.cpp", "sources/files.h", "sources/file_table_v2.cpp"],
 [("path resolution and entry add/remove under directory locks", "sources/full_format.cpp"), ("directory entries kept in a B-tree", "sources/btree_dir.cpp")], [], ["return codes", "readdir", "getattr", "readlink"])

prop("C03", "A lite-format repository is a hierarchical file tree, long names included",
 "In the lite format every sequence of create, mkdir, symlink, link, unlink, rmdir, rename, open, lookup, readlink and directory listing has exactly the effect and result a POSIX file tree would have, for short names, for names longer than the long-name threshold and for any mixture and any renaming between the two, under every name-handling mode (legacy, long-name threshold and suffix, plain text). Listings show precisely the existing names once each with the right kind, foreign files in the data directory never produce entries, and symbolic link targets are returned verbatim.",
 ["histories", "inputs", "configurations"], "all sequences of namespace operations, all names of every length around the threshold, all name translators",
 "Unit tests cover one scenario of a few names; transitions between short and long names, failures and replacement are not sampled.",
 ["sources/lite_format.cpp", "sources/lite_format.h", "sources/lite_long_name_lookup_table.cpp", "sources/sqlite_helper.cpp", "sources/unix.cpp"],
 [("deterministic name encryption and long-name hashing", "sources/lite_format.cpp NameTranslator"), ("long-name lookup table transaction around the storage operation", "sources/lite_format.cpp process_possible_long_name / vrename")],
 [("long-name table", "maps the stored short name to the encrypted long name", "per-directory SQLite file")], ["return codes", "readdir", "getattr", "readlink"])

prop("C04", "Everything acknowledged survives unmounting and remounting",
 "After all handles are closed and the file system is cleanly shut down, mounting it again with the same parameters shows exactly the same tree as before: names, kinds, hard-link structure and counts, contents and sizes, symbolic link targets, permission bits, owners, explicitly set times and extended attributes. Nothing removed reappears and nothing acknowledged is missing, whatever caches or pending buffers existed at shutdown.",
 ["histories", "configurations"], "all histories of operations with remounts at any point, both formats, all creation options",
 "Tests reopen once or twice after a fixed script; stale caches and unflushed headers appear only after particular histories.",
 ["sources/file_table_v2.cpp", "sources/files.cpp", "sources/btree_dir.cpp", "sources/streams.cpp", "sources/full_format.cpp", "sources/lite_format.cpp"],
 [("flush on close, eviction and shutdown", "sources/file_table_v2.cpp"), ("header, extended header and xattr flush", "sources/files.cpp"), ("dirty B-tree node flush", "sources/btree_dir.cpp subflush")], [], ["full tree snapshot before and after remount"])

prop("C05", "A refused operation leaves the tree unchanged",
 "Whenever an operation returns an error because it is not allowed in the current state (name already exists, name missing, directory not empty, not a directory, extended attribute missing or already present, name too long, and so on), the visible tree, every file's contents, attributes (directory time stamps excepted), extended attributes and link counts are exactly as before the call, immediately and after a remount.",
 ["histories", "inputs"], "all reachable states and all operations that are refused in them, both formats",
 "Tests assert on return codes of a few refused calls, and hardly ever look at the state afterwards.",
 ["sources/full_format.cpp", "sources/lite_format.cpp", "sources/lite_long_name_lookup_table.cpp", "sources/files.cpp"],
 [("check before mutate, roll back otherwise", "sources/full_format.cpp create/vrename/vrmdir/vlink"), ("transaction rollback on exception", "sources/lite_long_name_lookup_table.cpp")], [], ["snapshot after each refused call"])

prop("C06", "A directory index is an exact map for any insertion and deletion history",
 "A full-format directory of any size, after any sequence of insertions, deletions, lookups, flushes and reloads, contains exactly the names inserted and not yet deleted, each with the identity and kind it was inserted with, and enumerates each exactly once. Its on-disk structure stays a valid balanced ordered tree whose used and free pages partition the allocated pages, so space is neither lost nor shared.",
 ["histories", "inputs"], "all insert/delete/lookup/flush/reload histories, names of any length up to the limit, thousands of entries",
 "The B-tree unit test draws random histories from one distribution with one comparison; deep rebalancing, page reuse and rebuild paths depend on specific orders.",
 ["sources/btree_dir.cpp", "sources/btree_dir.h", "sources/files.cpp"],
 [("split, rotate, merge and rebuild", "sources/btree_dir.cpp"), ("free page list", "sources/btree_dir.cpp allocate_page/deallocate_page")],
 [("free list", "chain of reusable pages", "directory header")], ["lookup and iteration results", "structure validation"])

prop("C07", "Names are matched by the repository's equivalence rule and by nothing else",
 "In a full-format repository created case-insensitive and/or Unicode-normalization-insensitive, two names denote the same entry exactly when they are equal under that rule: lookups, creation conflicts, renames and deletions all agree, at most one member of an equivalence class exists per directory, and the name shown (also by the path query) is the one the entry was created or last renamed with. In a sensitive repository distinct byte strings are always distinct names, and a lite-format mount with case folding or normalization treats equivalent spellings as one name.",
 ["inputs", "configurations", "histories"], "all pairs of names (ASCII, accented, composed/decomposed, case pairs), all four modes, directories of any size",
 "Tests check a few ASCII pairs; ordering consistency matters only with many mixed names in one directory.",
 ["sources/mystring.cpp", "sources/btree_dir.cpp", "sources/internal_mount.cpp", "sources/full_format.cpp", "sources/lite_format.cpp"],
 [("comparison function selection", "sources/internal_mount.cpp"), ("B-tree ordering by comparison", "sources/btree_dir.cpp"), ("path normalization", "sources/lite_format.cpp")], [], ["lookup", "readdir", "getpath"])

prop("C08", "Altered file content is never returned as genuine",
 "With verification on, if the stored content of files is altered while the repository is not mounted (bits changed, blocks exchanged, moved, copied or rolled back within the file or from another file, a block's parts recombined, a header, identity or checksum list replaced), then every read either fails or returns, for each block, bytes that were once written at that very position of that very file - in the full format moreover the blocks of one single earlier version of it; in the lite format a file is identified by the identity stored in it, so that a stored file as a whole may stand in another's place. Neither format notices that the end of a file was cut off at a block boundary or extended by zeros, nor (lite) that a whole block was erased to zeros: it reads as zeros. Otherwise content never silently turns into something never stored there. Untouched blocks (lite) and untouched files keep reading correctly.",
 ["inputs", "fault_sequences", "configurations"], "all single and combined alterations of the stored representation of file contents, all block positions, both formats, with and without padding",
 "Tests flip a few bytes of one stream; position and file binding, recombination and padding variants are not tried.",
 ["sources/streams.cpp", "sources/lite_stream.cpp", "sources/files.cpp", "sources/lite_format.cpp"],
 [("authenticated encryption with position/file binding", "sources/streams.cpp, sources/lite_stream.cpp"), ("HMAC over the metadata stream", "sources/streams.cpp HMACStream")], [], ["read results after alteration"])

prop("C09", "Altered names, directories and metadata are never accepted as genuine",
 "With verification on, altering stored metadata while the repository is not mounted (directory pages, object headers, checksum lists, stored names, the table of long names, symbolic link targets, extended attributes, exchanging the stored objects of two entries) never yields a name, kind, target, attribute or value that was never stored: affected operations fail or omit the entry. In the full format what is shown for an object is an earlier state of that very object, and an object is refused when its metadata is missing or incomplete. The lite format binds names, link targets and attribute values to the repository only: they may be any it once stored, and kinds, sizes, modes and owners of stored files are those of the stored files. Entries that do not depend on the altered object stay usable. The process never crashes.",
 ["inputs", "fault_sequences"], "all alterations of stored metadata objects in both formats",
 "No test alters directory pages, names, symlink targets or extended attributes.",
 ["sources/files.cpp", "sources/btree_dir.cpp", "sources/streams.cpp", "sources/lite_format.cpp", "sources/xattr_name.cpp"],
 [("synthetic-IV name encryption", "sources/lite_format.cpp"), ("per-file keys and HMAC bound to the file identity", "sources/files.cpp"), ("xattr authenticated encryption", "sources/files.cpp, sources/lite_format.cpp XattrCryptor")], [], ["snapshot after alteration"])

prop("C10", "Storage never reveals plaintext and never reuses a nonce",
 "Nothing stored in the repository's data directory contains in clear any file content, file name, symbolic link target, extended attribute name or value or key material (unless plain-text names were requested), and every time a block, header or attribute value is encrypted under a key it uses a fresh unpredictable nonce: no nonce ever repeats, and writing the same plaintext twice, at the same or different places, yields unrelated ciphertext. Two files with equal content are stored under unrelated ciphertext.",
 ["histories", "inputs", "configurations"], "all write histories in both formats, all block and IV sizes",
 "Round-trip tests pass with a constant nonce or with no encryption at all.",
 ["sources/streams.cpp", "sources/lite_stream.cpp", "sources/files.cpp", "sources/crypto.cpp", "sources/lite_format.cpp", "sources/xattr_name.cpp"],
 [("random IV per encryption", "sources/streams.cpp, sources/lite_stream.cpp"), ("random file identity and per-file keys", "sources/lite_stream.cpp, sources/file_table_v2.cpp")], [], ["raw bytes of the data directory"])

prop("C11", "Content lives exactly as long as it is linked or open",
 "A file's content and attributes stay fully usable as long as at least one name refers to it or one handle is open, whatever other names are removed or replaced meanwhile; the reported link count always equals the number of names. Once the last name is removed and the last handle closed its storage is freed and nothing else is: after all files are removed the data directory holds no leftover objects beyond those of the remaining entries.",
 ["histories", "schedules"], "all interleavings of open, close, link, unlink, rename-over, read and write on any number of files, including cache eviction and reopening from cache",
 "Tests never unlink an open file, never fill the closed-file cache and never inspect what remains in storage.",
 ["sources/file_table_v2.cpp", "sources/files.h", "sources/files.cpp", "sources/full_format.cpp"],
 [("reference counts, live map and closed-file cache", "sources/file_table_v2.cpp"), ("nlink bookkeeping", "sources/files.h")],
 [("reference count", "open holders of a file object", "sources/files.h")], ["reads through old handles", "getattr nlink", "listing of the data directory"])

prop("C12", "Long names and their lookup table never disagree after a failure or crash",
 "In the lite format, if the storage operation behind a create, mkdir, symlink, link, unlink, rmdir or rename of a long name fails, or the process dies at any point during it, then afterwards every stored object whose operation did not complete is still listed under its full name and usable, and a long name that did complete is listed: the operation appears either entirely done or not done at all. A failed or interrupted operation never makes another entry of any directory disappear or unusable.",
 ["crash_points", "fault_sequences", "histories"], "all storage-call failure points and all crash points inside every namespace operation on long names",
 "No test injects a failure or a crash.",
 ["sources/lite_format.cpp", "sources/lite_long_name_lookup_table.cpp", "sources/sqlite_helper.cpp"],
 [("SQLite transaction spanning the storage operation", "sources/lite_long_name_lookup_table.cpp"), ("rollback when an exception is in flight", "sources/sqlite_helper.cpp / myutils.h")], [], ["listing and lookup after restart"])

prop("C13", "A killed process leaves every other file intact and the repository mountable",
 "If the process dies at any storage write, the repository can be mounted again (a stale lock does not prevent it), everything that was completed and flushed (closed or fsynced) before and is neither rewritten by the interrupted operation nor (in the full format) below a directory it rewrites reads back unchanged, and in the lite format the interrupted namespace operation is either done or not done. A file being written at that moment never yields bytes that were never written to it.",
 ["crash_points", "histories"], "all points between storage calls of every operation in both formats",
 "No test interrupts the process.",
 ["sources/streams.cpp", "sources/lite_stream.cpp", "sources/file_table_v2.cpp", "sources/full_format.cpp", "sources/lite_format.cpp", "sources/commands.cpp"],
 [("flush ordering", "sources/files.cpp, sources/btree_dir.cpp"), ("stale lock detection", "sources/full_format.cpp RepoLocker")], [], ["snapshot after restart"])

prop("C14", "Extended attributes behave as a per-file map",
 "For every file and directory in both formats, the extended attributes are exactly the map produced by the completed set and remove calls: get returns the last value set byte for byte whatever sufficiently large buffer is offered, asking for the size returns the exact size, too small a buffer is reported as such, list names each present attribute exactly once, and create-only, replace-only, missing-attribute and removal requests succeed or are refused accordingly. Attributes of different files and different names never influence each other.",
 ["histories", "inputs"], "all sequences of set/get/list/remove over any names, values and buffer sizes",
 "Tests set and get one attribute with a buffer of exactly the right size.",
 ["sources/files.cpp", "sources/lite_format.cpp", "sources/lite_format.h", "sources/xattr_name.cpp", "sources/full_format.cpp", "sources/unix.cpp"],
 [("value encryption", "sources/files.cpp, sources/lite_format.cpp"), ("name wrapping", "sources/xattr_name.cpp")], [], ["getxattr", "listxattr", "removexattr"])

prop("C15", "Only the current credentials open a repository, and re-keying loses nothing",
 "A repository configuration opens exactly with the password and key file combination last set for it, and then yields exactly the parameters and keys chosen at creation, across any number of password changes and key derivation settings; any other combination is rejected without changing anything. Altering or truncating a configuration file in any way never makes it open with other credentials or with other parameters (legacy JSON files: with other keys). If a password change fails or is interrupted at any point, the repository still opens with the old or the new credentials and with unchanged parameters, and creation never overwrites or hides an existing configuration.",
 ["histories", "inputs", "crash_points", "configurations"], "all creation options, all credential histories, all crash points of create and password change, all alterations of the configuration file",
 "Tests encrypt and decrypt one parameter set in memory.",
 ["sources/params_io.cpp", "sources/commands.cpp", "sources/crypto.cpp", "sources/unix.cpp"],
 [("authenticated encryption of the parameters under an Argon2id-derived key", "sources/params_io.cpp"), ("write to temporary then rename", "sources/commands.cpp")], [], ["exit status and decrypted parameters", "configuration file bytes"])

prop("C16", "At most one live process mounts a full-format repository read-write",
 "While a process has a full-format repository mounted read-write, no other process succeeds in mounting it read-write; after it unmounts or dies, the next attempt succeeds (unless its process number is in use again). A refused attempt disturbs neither the repository nor the holder's lock, and after a clean unmount no lock remains.",
 ["schedules", "crash_points", "histories"], "all sequences of mount, unmount, crash and competing mount attempts",
 "No test mounts twice or leaves a stale lock.",
 ["sources/full_format.cpp", "sources/full_format.h", "sources/unix.cpp"],
 [("exclusive creation of the lock file with the holder's process id", "sources/full_format.cpp RepoLocker")], [("lock file", "process id of the holder", ".securefs.lock")], ["mount success", "lock file existence"])

prop("C17", "Concurrent operations are linearizable and never deadlock",
 "Operations issued concurrently from many threads (through the same or different handles, on the same or different directories, including renames and links across directories in opposite directions and opening a file while its last handle closes) each take effect atomically at some point between call and return: every result and the final tree are those of some sequential order of the calls. All calls return; none crashes or blocks forever.",
 ["schedules", "histories"], "all interleavings of operations by several threads",
 "Tests are single threaded apart from one thread-local test.",
 ["sources/full_format.cpp", "sources/file_table_v2.cpp", "sources/files.h", "sources/lock_guard.h", "sources/lite_format.cpp", "sources/lite_format.h", "sources/thread_local.cpp"],
 [("per-object lock and ordered double lock", "sources/files.h, sources/lock_guard.h"), ("sharded table lock", "sources/file_table_v2.cpp")], [], ["invocation/response histories"], None)

prop("C18", "Idle shutdown fires only after a full idle period, and then does",
 "With an idle timeout configured, the shutdown callback never fires before the full timeout has passed since the most recent file system activity of any kind, however activities interleave with a pending expiry, and it does fire once activity ceases for that long. It fires at most once, and destroying the timer never hangs or fires afterwards.",
 ["schedules", "histories"], "all interleavings of activity with the timer thread, all operation kinds, deadlines moved later or earlier",
 "The timer test exercises a few fixed sleeps; no test checks that each operation counts as activity.",
 ["sources/resettable_timer.cpp", "sources/resettable_timer.h", "sources/fuse_hook.h", "sources/fuse_hook.cpp"],
 [("deadline re-evaluation after wake-up", "sources/resettable_timer.cpp"), ("activity notification in every delegated operation", "sources/fuse_hook.h")], [], ["callback times", "activity notifications"])

prop("C19", "File attributes report exactly what was set",
 "Kind, permission bits, owner and group of every object are those given at creation or last set by chmod/chown (unspecified ids unchanged, kind never changed), explicitly set access and modification times are returned exactly, and when times are kept inside the repository, changing content or metadata moves the corresponding times to the current time and never to anything else. Owner overrides of a mount change what is reported but not what is stored; attribute changes of one object never affect another.",
 ["histories", "inputs", "configurations"], "all sequences of attribute-changing operations, all modes, ids and times, mounts with and without overrides, stored times on or off",
 "Tests compare a few attributes after a fixed script.",
 ["sources/files.cpp", "sources/files.h", "sources/full_format.cpp", "sources/lite_format.cpp", "sources/stat_workaround.h", "sources/unix.cpp"],
 [("file header fields and extended header", "sources/files.cpp"), ("owner override", "sources/full_format.cpp postprocess_stat")], [], ["getattr/fgetattr"])

prop("C20", "Repositories written by earlier versions stay readable unchanged",
 "Every repository of every supported format version and option combination written by an earlier build opens with its credentials and shows exactly the tree, contents, attributes and extended attributes it was written with, and can be modified further; what this build writes is readable by an earlier build of the same format version. On-disk layouts, key derivations and encodings therefore never drift.",
 ["configurations", "inputs"], "all format versions and creation options, all stored object kinds",
 "Round-trip tests cannot see a symmetric change of reader and writer; the reference-repository test needs a FUSE mount.",
 ["sources/params_io.cpp", "sources/streams.cpp", "sources/lite_stream.cpp", "sources/lite_format.cpp", "sources/files.cpp", "sources/btree_dir.cpp", "sources/file_table_v2.cpp", "sources/xattr_name.cpp", "sources/crypto.cpp", "test/reference"],
 [("format constants, key derivation and encodings", "sources/")], [], ["snapshot of reference repositories"])

prop("C21", "Looking changes nothing",
 "Mounting, looking and unmounting leave everything as it was. Whatever is looked at, in any order and from several threads (attributes, listings, link targets, extended attributes, file system statistics, names that do not exist, reading inside, across and beyond the end, opening files, flushing, synchronizing and closing handles through which nothing was changed), names, contents, kinds, modes, owners, link counts, modification and change times, inode numbers and extended attributes stay the same, and so does every byte of the data directory, except for access times where the full format records them and for the identity that a lite file stored empty receives when first opened. A full-format repository mounted read-only keeps every byte; no lock is taken and none is removed. Commands that only inform or are refused (info, version, doc, a wrong password, a repository that exists already) change nothing either.",
 ["histories", "inputs", "schedules"], "all sequences of reading operations on all repositories, in every way to mount them",
 "Tests look in order to compare results; nothing compares what is stored before and after, and none mounts read-only.",
 ["sources/files.h", "sources/files.cpp", "sources/streams.cpp", "sources/lite_stream.cpp", "sources/lite_format.cpp", "sources/lite_long_name_lookup_table.cpp", "sources/full_format.cpp", "sources/full_format.h", "sources/file_table_v2.cpp", "sources/commands.cpp"],
 [("access time rule and writing back of headers", "sources/files.h update_atime_helper, sources/files.cpp flush"), ("read-only opening of the object streams and no locking", "sources/file_table_v2.cpp, sources/full_format.h")], [], ["byte image of the data directory", "snapshot before and after"])

prop("C22", "Changing the long-name suffix keeps every name and file",
 "Migrating a lite repository to another long-name suffix keeps every entry of every directory at any depth with its full name, content and kind, whatever the order in which directories are listed, and updates the stored parameters so that later mounts see everything under the new suffix. An unsuitable request (a suffix that cannot be part of a name or told from encrypted names, a wrong password, a full-format repository) is refused without changing anything, and repeating an interrupted or failed migration completes it. Other parameters and credentials stay as they were.",
 ["histories", "inputs", "configurations"], "all trees mixing short and long names at any depth, all old and new suffixes, repeated migrations",
 "One unit test migrates one flat directory once.",
 ["sources/lite_format.cpp", "sources/commands.cpp", "sources/lite_long_name_lookup_table.cpp"],
 [("rename of stored names and table rows in one transaction per directory", "sources/lite_format.cpp change_long_name_suffix"), ("configuration rewritten via temporary file", "sources/commands.cpp")], [], ["snapshot before and after migration"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
