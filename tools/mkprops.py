#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["RESP replies on the client socket"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("K01", "User-key namespaces behave exactly like a map from keys to latest values",
  "In a namespace in user mode, GET, MGET, EXISTS, LENGTH and KEYTIME of any binary key of 1 to 255 bytes report exactly the payload (or the absence) left by the last accepted SET or DEL of that same key, whatever other keys, hash collisions, file rotations and earlier deletions there are. SET replies with the key, or with nil and no effect when the payload is byte-identical to the stored one; DEL succeeds exactly when the key is present. A rejected command (bad key length, wrong arguments, missing key) changes nothing.",
  ["inputs", "histories"], "every sequence of SET/SETX/GET/MGET/EXISTS/LENGTH/KEYTIME/DEL/NSJUMP over binary keys and payloads, including colliding keys and payloads with equal CRC32",
  "The tests replay one fixed order of a handful of printable keys; they never collide two keys in one hash bucket, never overwrite after deletion across files, and never compare equal-CRC payloads.",
  ["zdbd/commands_set.c", "zdbd/commands_get.c", "zdbd/commands_dataset.c", "libzdb/index.c", "libzdb/index_set.c", "libzdb/index_branch.c", "libzdb/data.c"],
  [("memory index of hash buckets", "libzdb/index_branch.c"), ("lookup compares namespace, length and bytes", "libzdb/index.c index_entry_get"), ("identical payload detection", "zdbd/commands_set.c data_compare_matching"), ("update keeps one live entry per key", "libzdb/index_set.c index_update_memory_handler_memkey")],
  [("index branches", "key -> latest location, per namespace", "libzdb/index_branch.c")])
p("K02", "Sequential namespaces hand out fresh increasing ids and address exactly them",
  "In a namespace in sequential mode, SET with an empty key stores the payload under a new 8-byte little-endian id equal to the number of index records ever written, so ids strictly increase and are never reused; SET with an id updates it only if it is live, and the id keeps addressing the newest payload. GET, MGET, EXISTS, LENGTH, KEYTIME and DEL of any other byte string (wrong length, unused id, deleted id, an id consumed by an update, an id beyond the range) report absence.",
  ["inputs", "histories"], "every sequence of SET/GET/DEL/NSJUMP/reload over existing, deleted, never-allocated and out-of-range ids, with index files that are empty, full or rotated several times in a row",
  "The tests insert a few ids into one file and never rotate twice, never leave an index file empty and never ask for ids beyond 2^32.",
  ["zdbd/commands_set.c", "libzdb/index_get.c", "libzdb/index_seq.c", "libzdb/index_set.c", "libzdb/index_loader.c"],
  [("id to file map with binary search", "libzdb/index_seq.c"), ("fixed-size records addressed by position", "libzdb/index_seq.c index_seq_offset"), ("in-place overwrite with a flagged copy", "libzdb/index_set.c index_seq_overwrite")],
  [("seqmap", "first id of each index file", "libzdb/index_seq.c"), ("nextentry", "next id", "libzdb/index.c")])
p("K03", "A restart or RELOAD never changes what clients can observe",
  "After the daemon is stopped in any way between two commands (STOP, SIGTERM, SIGINT, kill -9) and started again on the same directories, or a namespace is RELOADed, every namespace answers every read, scan, history and statistics query exactly as it would have without the restart. All acknowledged writes and settings survive, and nothing that was deleted or replaced comes back. Only volatile lock and freeze flags, the lists of dirty index files (on RELOAD, the namespace's own list), and connections, are lost.",
  ["histories", "crash_points"], "every history of writes, deletions, rotations and settings followed by any number of stops and reloads at any point",
  "The test suite never restarts the daemon between a write and a read.",
  ["libzdb/index_loader.c", "libzdb/namespace.c", "libzdb/data.c", "libzdb/bootstrap.c"],
  [("replay of index files", "libzdb/index_loader.c index_load_file"), ("namespace descriptors", "libzdb/namespace.c namespace_descriptor_load"), ("namespace reload", "libzdb/namespace.c namespace_reload")],
  observe=["RESP replies before and after a restart", "RELOAD"])
p("K04", "A crash at any disk write keeps every acknowledged write and loses no key",
  "If the process dies at any point inside a command, the daemon starts again on the files left behind, and the recovered namespaces contain every write acknowledged before. The interrupted command is either fully visible or not at all: an interrupted overwrite leaves the old or the new payload, an interrupted delete leaves the key or its absence. Scans, history and statistics of the recovered namespace agree with that content, and it accepts further writes that survive later restarts.",
  ["crash_points", "histories"], "every write system call of every mutating command (SET new, SET update, DEL, NSJUMP and automatic rotation, NSNEW, NSSET) in either mode, after any history, followed by more commands and restarts",
  "No test kills the daemon at all, let alone between two of the writes one command issues.",
  ["libzdb/index_set.c", "libzdb/index.c", "libzdb/data.c", "libzdb/index_loader.c", "libzdb/namespace.c"],
  [("order of data append, index append and in-place flag", "libzdb/index_set.c index_update_entry_memkey"), ("replay tolerates a stale live record", "libzdb/index_loader.c"), ("file creation at rotation", "libzdb/index.c index_jump_next, libzdb/data.c data_jump_next")],
  observe=["RESP replies after the crashed daemon is started again"])
p("K05", "A refused disk write fails only that command",
  "When the operating system refuses or shortens any write (full disk, I/O error), the command is answered with an error, no key changes its value, no acknowledged data is lost, and the daemon keeps serving. Commands after the fault clears work normally, and a restart recovers exactly the acknowledged state: no key, scan entry or history from a refused write (an unreferenced payload record may remain in the data file).",
  ["fault_sequences", "histories"], "every position of a failed or short write inside every SET, update and DEL in either mode, followed by reads, writes and restarts",
  "Tests run on a healthy filesystem; no write ever fails.",
  ["libzdb/data.c", "libzdb/index.c", "libzdb/index_set.c", "zdbd/commands_set.c", "zdbd/commands_dataset.c"],
  [("write wrappers report failure", "libzdb/data.c data_write, libzdb/index.c index_write"), ("index updated only after data was written", "zdbd/commands_set.c")])
p("K06", "Data files are append-only and immutable once rotated",
  "Bytes of a data file, once written, never change: each data file only grows while it is the current one, and a file left behind by a rotation is never modified or truncated again by any later command, deletion, update or restart. A rotation happens exactly when the current data file plus the new payload would exceed the configured size, when NSJUMP asks for it or, with --rotate, when a namespace written since its last rotation is due, moves to the next consecutive file number, and leaves every earlier key readable.",
  ["histories", "inputs"], "every history of writes, updates, deletions, rotations and restarts, with payload sizes around the file size limit",
  "Tests never look at the files, and never reach the rotation limit.",
  ["libzdb/data.c", "libzdb/index.c", "zdbd/commands_set.c", "zdbd/commands_namespace.c"],
  [("O_APPEND data file", "libzdb/data.c data_open_final"), ("rotation before the write", "zdbd/commands_set.c command_set"), ("tombstones instead of in-place deletion", "libzdb/data.c data_delete")],
  observe=["contents of the data and index directories", "NSINFO data_current_id and data_current_offset", "RESP replies"])
p("K07", "INDEX DIRTY lists every rotated index file modified since the last reset",
  "Every index file whose existing records were modified (a deletion or an update of a record it holds) since the last reset is listed by INDEX DIRTY and passed to the jump-index hook, and no file that was not modified is listed. A reset (INDEX DIRTY RESET, or a jump-index hook that exits 0) empties the list, a failing hook keeps it, and besides these only RELOAD, FLUSH and a restart of the daemon start a new, empty list.",
  ["histories", "configurations"], "every history of inserts, updates and deletions over any number of index files, resets and hook outcomes in both modes",
  "The tests call INDEX DIRTY on one or two files and never compare it with what was actually rewritten.",
  ["libzdb/index.c", "libzdb/index_set.c", "zdbd/commands_system.c", "libzdb/hook.c"],
  [("dirty bitmap", "libzdb/index.c index_dirty_set"), ("hook argument", "libzdb/index.c index_dirty_list_generate")],
  [("dirty map", "index files modified in place", "libzdb/index.c")])
p("K08", "SCAN and RSCAN visit every live key exactly once, in record order",
  "Following the returned cursors from the start until 'No more data', SCAN returns every live key exactly once in record order (RSCAN: the exact reverse), with its true payload length and timestamp, over any number of index files including empty ones and files of deleted records. A cursor from SCAN, RSCAN or KEYCUR stays usable for ever, even after its key is updated or deleted, and continues from its position: keys live throughout a walk are never skipped or repeated. 'No more data' is answered only when nothing remains; a malformed cursor is refused.",
  ["histories", "inputs", "schedules"], "every history of inserts, updates, deletions, rotations and restarts, every interleaving of such writes with a walk, and every way the time slice cuts a walk",
  "Tests walk a small, quiet, single-file namespace in one slice.",
  ["zdbd/commands_scan.c", "libzdb/index_scan.c", "libzdb/index.c"],
  [("forward and backward record walk", "libzdb/index_scan.c"), ("binary cursors", "libzdb/index.c index_entry_serialize/deserialize"), ("time slice", "zdbd/commands_scan.c")])
p("K09", "HISTORY walks exactly the successive values of a key, newest first",
  "HISTORY key returns the current payload and its timestamp, and following the returned cursors returns each earlier payload of that key with its own timestamp, newest first, ending after the value written when the key was last created. The chain is unaffected by other keys, rotations, updates, reloads and restarts. A key that is absent, or a cursor that does not belong to the given key, is refused and never reveals another key's data.",
  ["histories", "inputs"], "every history of updates, deletions, re-creations and rotations of several keys, every cursor obtained for one key used with another, and arbitrary cursor bytes",
  "Tests check two updates of one key in one file.",
  ["zdbd/commands_history.c", "libzdb/index_set.c", "libzdb/index.c"],
  [("parent pointers", "libzdb/index_set.c"), ("key check on explicit cursors", "zdbd/commands_history.c")])
p("K10", "KSCAN lists exactly the live keys with the given prefix",
  "In a user-mode namespace KSCAN returns each live key of the client's own namespace that starts with the given bytes exactly once, and no other key, and reports an error when there is none or in sequential mode. Deleted keys and keys of other namespaces never appear.",
  ["histories", "inputs"], "every set of live, deleted and foreign keys sharing prefixes, any prefix from 1 byte to longer than every key",
  "Tests use a handful of keys in one namespace and never delete.",
  ["zdbd/commands_scan.c"],
  [("walk over all buckets", "zdbd/commands_scan.c command_kscan")])
p("K11", "NSINFO and DBSIZE always equal the real content",
  "At every moment DBSIZE and NSINFO entries equal the number of live keys of the namespace, data_size_bytes equals the sum of their payload lengths, index_size_bytes is the same function of the live keys at all times, next_internal_id in sequential mode is the next id, and data_current_id and data_current_offset are the active file and its size. This holds after any mixture of inserts, updates, deletions, rejected commands, rotations, reloads and restarts.",
  ["histories"], "every history in both modes, including updates to longer, shorter and empty payloads and re-creation after deletion",
  "Tests compare one or two counters after simple inserts.",
  ["libzdb/index_set.c", "libzdb/index.c", "libzdb/index_loader.c", "zdbd/commands_namespace.c"],
  [("incremental statistics", "libzdb/index_set.c, libzdb/index.c index_entry_delete_memory"), ("NSINFO", "zdbd/commands_namespace.c command_nsinfo")],
  [("stats", "entries, datasize, size", "libzdb/index.h")])
p("K12", "A namespace never holds more payload bytes than its size limit",
  "A SET is refused exactly when the live payload bytes after it (counting a replaced payload as freed) would exceed the namespace's maxsize; a refused SET changes nothing. With a limit in force the live payload never grows beyond the larger of the limit and its size when the limit was set. Deletions and shrinking updates free space at once, a limit of 0 means unlimited, and the limit survives restarts.",
  ["histories", "inputs"], "every sequence of inserts, updates, deletions and limit changes around the limit, in both modes, before and after restarts",
  "The tests try one insert over the limit.",
  ["zdbd/commands_set.c", "zdbd/commands_namespace.c", "libzdb/namespace.c"],
  [("quota check before the write", "zdbd/commands_set.c command_set"), ("datasize statistic", "libzdb/index_set.c")])
p("K13", "Key and record timestamps are those of the write that produced the value",
  "KEYTIME, SCAN and HISTORY report for a value the wall-clock time of the SET that stored it, or the explicit timestamp an administrator gave; a rejected or unchanged SET does not alter it. DATA RAW shows the same timestamp, the same payload and flags for the record. Restarts and rotations preserve all of them, for any 32-bit timestamp.",
  ["inputs", "histories"], "every SET and DEL with and without explicit timestamps over the whole 32-bit range, then any restarts",
  "Tests use one custom timestamp and one command to read it.",
  ["zdbd/commands_set.c", "zdbd/commands_dataset.c", "zdbd/commands_scan.c", "zdbd/commands_history.c", "libzdb/data.c"],
  [("timestamp from request", "zdbd/commands_set.c timestamp_from_set"), ("stored in both records", "libzdb/data.c data_insert, libzdb/index_set.c")])
p("N01", "Namespaces are fully isolated from each other",
  "Commands run in one namespace never change what any query returns in another: the same key can hold different values in different namespaces, and writes, deletions, KSCAN, SCAN, statistics, RELOAD, FLUSH, NSJUMP, NSDEL and settings of one leave all others untouched. This includes namespaces of different modes, and a namespace created with the name of a deleted one starts empty.",
  ["histories"], "every interleaving of commands of several clients over several namespaces of both modes, with creation and deletion in between",
  "Tests mostly use one namespace, and never delete or reload next to a populated one.",
  ["libzdb/namespace.c", "libzdb/index.c", "zdbd/redis.c"],
  [("namespace pointer in each memory entry", "libzdb/index.c index_entry_get, index_clean_namespace"), ("one directory per namespace", "libzdb/namespace.c")])
p("N02", "Namespace life cycle and settings are exact and durable",
  "NSNEW creates an empty, public, unlimited namespace exactly when the name is acceptable and unused, NSDEL removes exactly that namespace with its files, and NSLIST lists exactly the existing ones, each once. Every accepted NSSET (maxsize, password, public, worm, mode) takes effect immediately, is reported by NSINFO, and survives restarts; an unaccepted one changes nothing. The default namespace always exists, cannot be removed, and only its mode, lock and freeze can be set.",
  ["histories", "inputs"], "every sequence of NSNEW/NSDEL/NSSET/NSLIST/NSINFO/SELECT and restarts over names and property values of any length",
  "Tests set a few properties once and never restart, and never reuse a deleted slot.",
  ["libzdb/namespace.c", "zdbd/commands_namespace.c", "libzdb/filesystem.c"],
  [("namespace slots", "libzdb/namespace.c namespace_push, namespace_kick_slot"), ("descriptor file", "libzdb/namespace.c namespace_descriptor_update/load")])
p("N03", "FLUSH empties exactly the selected private namespace, for good",
  "FLUSH succeeds only in a namespace that is password protected and not public, and only for a client that may write there (not read-only, locked, frozen or worm). After it the namespace holds no key, no history, no scan entry and zero statistics, keeps its mode and settings, accepts new writes, and stays empty after a restart. Other namespaces are untouched, and a refused FLUSH changes nothing.",
  ["histories", "configurations"], "every history before FLUSH (several files, deletions, both modes), every combination of public, password, write access, lock and worm, and restarts after it",
  "FLUSH is never called by the test suite.",
  ["libzdb/namespace.c", "libzdb/filesystem.c", "zdbd/commands_namespace.c"],
  [("removal of index and data files", "libzdb/filesystem.c zdb_dir_clean_payload"), ("reinitialisation", "libzdb/namespace.c namespace_flush")])
p("N04", "Lock, freeze and worm restrict exactly what they promise, for everyone",
  "While a namespace is locked every SET, DEL and FLUSH in it is refused for every client and reads work unchanged; while it is frozen every data command, read or write, is refused; unlocking or unfreezing restores normal service with the content unchanged. In worm mode a key once stored can be neither overwritten nor deleted by anyone while new keys can be added. Refused commands have no effect, and other namespaces are unaffected.",
  ["histories", "configurations"], "every interleaving of lock, freeze, worm changes with data commands of several clients, both modes, the default namespace included",
  "Tests lock once and try one SET and one GET.",
  ["zdbd/commands_set.c", "zdbd/commands_dataset.c", "zdbd/commands_get.c", "zdbd/commands_scan.c", "zdbd/commands_history.c", "libzdb/namespace.c"],
  [("gates before each data command", "zdbd/commands_*.c namespace_is_frozen, namespace_is_locked"), ("worm checks", "zdbd/commands_set.c, zdbd/commands_dataset.c")])
p("N05", "A namespace's mode is fixed from its first write",
  "NSSET mode changes a namespace between user and sequential only while it has held no record and has not rotated since its creation or its last FLUSH, and only when the server was started without a fixed mode. From the first record on every attempt is refused with no effect. The mode is a property of the namespace: it survives restarts, reloads and flushes, decides how every data command behaves there, and a daemon started in a conflicting fixed mode refuses to open it.",
  ["histories", "configurations"], "every history before and after NSSET mode (including insert-then-delete, NSJUMP, RELOAD, restart) on new and default namespaces, for each server mode",
  "Tests switch the mode of one empty namespace.",
  ["zdbd/commands_namespace.c", "libzdb/namespace.c", "libzdb/index_loader.c"],
  [("freshness test", "libzdb/namespace.c namespace_is_fresh"), ("mode in the index header", "libzdb/index_loader.c index_switch_mode")])
p("N06", "Options apply to the run they are given to and change no content",
  "A daemon restarted on the same directories with other options serves exactly the content it had: same records, histories, order, namespaces and settings, whatever the file size, limit, admin password or addresses of earlier runs were. --admin, --protect (with the password of this run) and --maxsize apply to this run only: without them the default namespace has no password and no limit again, whatever was done to it meanwhile. With --mode the daemon serves only if every namespace is of that mode; otherwise it refuses to start and leaves every file as it was. Without --mode it accepts any. --datasize (between 512 KiB and 4 GiB, with or without suffix K, M, G, T) decides when files are rotated from then on. It can be reached on the unix socket, on the TCP address, or (--dualnet) on both, as it was told, and nowhere else. Options which are none of these (sizes out of range, unknown modes, --protect without --admin, unknown or incomplete options) are refused without touching a file.",
  ["histories", "configurations"], "every history of commands and restarts with other options, for sets of options which do and do not fit what is stored",
  "The tests start each daemon with one set of options on fresh directories.",
  ["zdbd/zdbd.c", "zdbd/redis.c", "zdbd/commands_namespace.c", "libzdb/bootstrap.c", "libzdb/namespace.c", "libzdb/index_loader.c"],
  [("options", "zdbd/zdbd.c main"), ("default namespace's password and limit", "zdbd/zdbd.c, libzdb/namespace.c"), ("mode of what is stored", "libzdb/index_loader.c"), ("listening", "zdbd/redis.c redis_listen")])
p("A01", "Administrative commands require proof of the admin password, usable once",
  "When an admin password is set, a connection can use administrative commands (NSNEW, NSDEL, NSSET, NSJUMP, RELOAD, HOOKS, INDEX, DATA, MIRROR, MASTER, explicit timestamps) only after it itself presented the exact password, or the SHA1 of a challenge issued to that connection joined with the password. Each challenge is accepted for at most one attempt, on the connection it was issued to only; challenges never repeat. Refused commands have no effect, and authentication never leaks to another connection.",
  ["inputs", "schedules", "histories"], "every interleaving of plain and secure authentication attempts, challenges and admin commands over several connections, with right, wrong, truncated, extended, replayed and foreign credentials",
  "Tests authenticate once with the right and once with a wrong password on one connection.",
  ["zdbd/commands_auth.c", "zdbd/auth.c", "zdbd/commands.c", "libzdb/security.c", "zdbd/redis.c"],
  [("per-connection admin flag", "zdbd/redis.c socket_client_new"), ("gate", "zdbd/commands.c command_admin_authorized"), ("nonce", "zdbd/commands_auth.c")])
p("A02", "Password-protected namespaces are entered only as their settings allow",
  "SELECT of a namespace without password always gives read-write access; with a password, the exact password (plain, or as SHA1 of the connection's own unused challenge joined with it) gives read-write access, no password gives read-only access if the namespace is public and is refused if it is private, and anything else is refused. A read-only client can run no command that changes the namespace's content. A refused SELECT leaves the client where it was with the rights it had, and a challenge opens at most one access.",
  ["inputs", "configurations", "histories"], "every combination of password, public flag, SELECT form and credential over several clients, followed by reads and writes, with settings changed in between",
  "Tests try a few combinations on one client and never replay a challenge.",
  ["zdbd/commands_namespace.c", "zdbd/commands_set.c", "zdbd/commands_dataset.c", "libzdb/security.c"],
  [("SELECT", "zdbd/commands_namespace.c command_select"), ("write gate", "client writable flag in zdbd/commands_set.c, zdbd/commands_dataset.c")])
p("A03", "Deleting a namespace cuts off its clients and erases its data",
  "After NSDEL every client that was in the namespace receives an error and is disconnected at its next command, whatever it is, without any effect; clients elsewhere are unaffected. A client never reads or writes a deleted namespace or a later one of the same name without a new SELECT. NSDEL of the namespace the client itself uses, of default, or of an unknown name is refused without effect.",
  ["schedules", "histories"], "every interleaving of several clients selecting, using, deleting and re-creating namespaces, including waiting and mirror clients",
  "Tests delete a namespace nobody else uses.",
  ["zdbd/redis.c", "zdbd/commands_namespace.c", "libzdb/namespace.c"],
  [("detaching clients", "zdbd/redis.c redis_detach_clients"), ("dispatcher check", "zdbd/commands.c redis_dispatcher")])
p("R01", "Every request gets exactly one reply, in order, however bytes are split",
  "For any well-formed sequence of requests on a connection (WAIT aside, whose answer comes later and is the subject of R03), the server sends exactly one well-formed reply per request, in request order, and the replies do not depend on how the request bytes are cut into packets, pipelined, or interleaved with other connections. Arguments are binary safe and payloads up to 8 MiB arrive and return unchanged, also to a client that reads slowly.",
  ["inputs", "schedules"], "every segmentation and pipelining of request streams, argument sizes around the internal buffer sizes, several connections interleaved, slow readers",
  "The tests send each request whole and read its reply before the next.",
  ["zdbd/redis.c", "zdbd/socket_epoll.c", "zdbd/redis.h"],
  [("incremental parser", "zdbd/redis.c redis_chunk"), ("reply queue", "zdbd/redis.c redis_reply, redis_delayed_write")])
p("R02", "Malformed or hostile input never harms anyone else",
  "Any byte stream on one connection (bad framing, oversize or negative counts, unknown commands, wrong argument counts, truncated requests, abrupt disconnects, connection churn) leads to an error reply or a disconnect of that connection only. The daemon keeps running, no namespace content or setting changes unless a well-formed authorised command asked for it, and other clients' requests are answered as if the bad connection did not exist.",
  ["inputs", "schedules"], "every malformed request, every command with every argument count and length, at any moment between other clients' commands",
  "A few fixed malformed packets are tested, on one connection, without watching the others.",
  ["zdbd/redis.c", "zdbd/commands.c", "zdbd/commands_*.c"],
  [("limits and discard", "zdbd/redis.c"), ("argument validation", "zdbd/commands.c command_args_validate")])
p("R03", "WAIT wakes exactly on the next matching command in the namespace, or times out",
  "A client in WAIT cmd receives +CMD exactly when the first later matching command ('*': any) is executed by another client in the same namespace, and nothing from other namespaces, other commands or its own; otherwise it receives -Timeout not before its timeout and reasonably soon after it. Each WAIT of a client which awaits its answer before it sends another request gets exactly one answer and then the connection works as before; other clients are never blocked. Timeouts outside 100 ms to 30 min and unknown commands are refused at once.",
  ["schedules", "inputs"], "every interleaving of waiting and executing clients over several namespaces, all command names and timeout values",
  "One test waits for one command with one other client at most.",
  ["zdbd/commands.c", "zdbd/redis.c"],
  [("watcher", "zdbd/redis.c redis_client_set_watcher, redis_posthandler_client"), ("timeout sweep", "zdbd/redis.c redis_idle_process")])
p("R04", "A mirror receives every executed command of others, once, complete and in order",
  "After MIRROR, an administrator's connection receives one frame for every recognised command of any other client (refused ones included), in execution order, with the time, the namespace it ran in, the instance id as owner and the unmodified arguments, and none for its own; replaying the accepted SET and DEL frames into another instance reproduces the same content, ids and timestamps. Unknown commands, requests of a client whose namespace was deleted, and MIRROR without admin rights, give nothing. Mirroring never changes the replies other clients get.",
  ["schedules", "histories"], "every interleaving of several clients and mirrors over several namespaces, including binary and large arguments and failing commands",
  "MIRROR is only checked to answer.",
  ["zdbd/redis.c", "zdbd/commands_replicate.c"],
  [("mirror frames", "zdbd/redis.c redis_mirror_client")])
p("T01", "An index rebuilt from the data files gives back the same dataset",
  "Removing the index records of a namespace and running the index-rebuild tool over its data files yields an index with which the daemon serves exactly the same live keys and payloads as before in user mode, whatever sequence of inserts, updates, deletions and rotations produced the data, also when a crash cut one of them short and the daemon went on afterwards. Deleted keys stay deleted, and the data files are not modified by the tool.",
  ["histories"], "every history in user mode over one or more data files, with updates, deletions and re-creations before and after rotations",
  "The tools have no tests.",
  ["tools/index-rebuild/index-rebuild.c", "libzdb/index_set.c", "libzdb/data.c"],
  [("replay of data records", "tools/index-rebuild/index-rebuild.c"), ("tombstones", "libzdb/data.c data_delete")],
  observe=["daemon replies after the rebuild", "bytes of the data files"])
p("T02", "CHECK and DATA RAW tell the truth about stored bytes",
  "CHECK of a live key returns 1 when the stored payload bytes are those that were written, 0 when any byte of them was altered on disk, and nil for absent keys, in any file. DATA RAW for the position of any record, from the first one on, returns exactly the key, flags, timestamp, checksum, previous-record offset and payload that were written there, in particular for deletion records, and refuses positions beyond the end. Walking the records by their sizes enumerates the complete write history of the namespace.",
  ["inputs", "fault_sequences", "histories"], "every history of writes and deletions over several files, every stored payload and every single-byte corruption of it",
  "Tests CHECK one intact key; corruption and deletion records are never exercised.",
  ["libzdb/data.c", "zdbd/commands_dataset.c", "zdbd/commands_system.c", "libzdb/crc32.c"],
  [("CRC32 of payload", "libzdb/data.c data_check_real"), ("raw access", "libzdb/data.c data_raw_get_real")])
p("L01", "The embedded library API has the same key-value semantics as the daemon",
  "A program linking the library sees, through set, get, exists, check and del on a namespace, exactly the map semantics of the daemon in the namespace's mode, including the reported status of each call, up-to-date detection only for identical payloads, and refusal of invalid ids. Closing and reopening, by the library or the daemon, shows the same content.",
  ["histories", "inputs"], "every sequence of API calls in both modes with arbitrary keys and payloads, and reopening in between",
  "The example program is the only user; it is not a test.",
  ["libzdb/api.c", "libzdb/libzdb.c"],
  [("API handlers", "libzdb/api.c zdb_api_set/get/exists/check/del")],
  observe=["status and payload returned by the library functions"])
p("H01", "Hooks run once per documented event with its arguments, and are obeyed",
  "With a hook program configured, it is run once for each documented event (ready, close, namespaces-init, namespace-created, -updated, -deleted, -reloaded, -closing, jump-index, jump-data, missing-data) with that event's documented arguments and never otherwise. A blocking hook completes before the server continues: ready refusing means the server does not serve, missing-data restoring an offloaded file makes the read succeed with the original payload, and otherwise the read fails without harm. HOOKS lists the recent runs with their results.",
  ["histories", "configurations"], "every sequence of life-cycle events, rotations and offloaded data files with hooks that succeed, fail or restore files",
  "No test configures a hook.",
  ["libzdb/hook.c", "libzdb/index.c", "libzdb/data.c", "libzdb/namespace.c", "zdbd/zdbd.c"],
  [("hook execution", "libzdb/hook.c"), ("missing data recovery", "libzdb/data.c data_open_id_mode")],
  observe=["arguments received by the hook program", "RESP replies"])
p("I01", "A data or index directory is served by one instance at a time",
  "A second daemon or library instance pointed at an index or a data directory already in use refuses to start and changes nothing there, while the first keeps serving undisturbed; once the first one has ended, in any way, the directories can be opened again.",
  ["schedules", "configurations"], "every combination of shared index, shared data or both, and every way the first instance ends",
  "Tests use a single instance.",
  ["libzdb/bootstrap.c"],
  [("exclusive lock on both directories", "libzdb/bootstrap.c zdb_lock")],
  observe=["exit status of the second instance", "RESP replies of the first"])
p("T03", "The namespace tools show and write the descriptor the daemon uses",
  "While the daemon is stopped, namespace-dump shows exactly the settings the daemon has for a namespace (maximum size, password, public flag, worm), and fails for a namespace which does not exist. After namespace-editor, which shows the old ones first, the daemon serves the namespace with exactly the given settings (those not given take their documented defaults); its mode, its content and all other namespaces are unchanged.",
  ["inputs", "histories"], "every descriptor left by any history of NSNEW and NSSET, every value of each editable field, followed by restarts",
  "The tools have no tests.",
  ["tools/namespace-editor/namespace-editor.c", "tools/namespace-dump/namespace-dump.c", "libzdb/namespace.c"],
  [("descriptor layout shared with the daemon", "libzdb/namespace.h ns_header_t"), ("descriptor rewrite", "tools/namespace-editor/namespace-editor.c")],
  observe=["output of the tools", "daemon replies after the edit"])
p("T04", "integrity-check reports a data file if and only if it was altered",
  "integrity-check succeeds on every data file the daemon wrote, whatever keys, payloads and deletions it contains, and whatever crashes the daemon started again from. It fails, and reports their number, when bytes of stored payloads have been altered, however many records are, and fails on a file which does not end with a record or does not exist. It modifies nothing.",
  ["fault_sequences", "histories"], "every history of writes and deletions over several files, with any number of altered payload bytes in any records",
  "The tools have no tests.",
  ["tools/integrity-check/integrity-check.c", "libzdb/data.c", "libzdb/crc32.c"],
  [("walk of the records of a file", "tools/integrity-check/integrity-check.c")],
  observe=["exit status of the tool", "bytes of the data files"])
p("T05", "A namespace compacted by quick-compact is served exactly as before",
  "quick-compact writes, for a namespace of either mode, index and data directories with which the daemon serves the same live keys, payloads, timestamps, settings, scans and statistics as with the original ones, every record in the file of the same number. Only payloads of replaced and deleted records are gone, and the namespace accepts further writes. The source directories are not modified.",
  ["histories"], "every history in either mode over one or more data files, then the tool, then more commands and restarts",
  "The tools have no tests.",
  ["tools/quick-compact/quick-compact.c", "libzdb/data.c", "libzdb/index_loader.c"],
  [("rewrite of data files", "tools/quick-compact/quick-compact.c")],
  observe=["daemon replies on the compacted directories", "bytes of the data files"])
p("T06", "db-sync makes a target daemon serve the same keys and payloads as the source",
  "db-sync from a daemon to an empty one stores there every live key of the default namespace of the source (user mode) with its exact payload, whatever bytes and lengths they have, in the order of the source's records, and nothing else: no deleted key, no replaced payload, nothing of other namespaces. Running it again changes nothing.",
  ["histories", "inputs"], "every content of the source left by any history in user mode, over any number of files, with binary keys and payloads of any length",
  "The tools have no tests.",
  ["utilities/db-sync/db-sync.c", "zdbd/commands_scan.c", "zdbd/commands_set.c"],
  [("scan of the source, SET on the target", "utilities/db-sync/db-sync.c")],
  observe=["RESP replies of both daemons"])
p("T07", "index-dump shows every index record, rightly linked with its data",
  "index-dump, run beside the daemon, lists every record of every index file of a namespace, in order: its key, payload length, deletion flag and timestamp, the position of its data record, and the position of the record with the key's previous value. Data file, offset and checksum lead to the very data record of that write, in either mode. It modifies nothing.",
  ["histories"], "every history of writes, replacements, deletions, rotations and restarts in either mode, at any point",
  "The tools have no tests, and no test looks at the index records themselves.",
  ["tools/index-dump/index-dump.c", "libzdb/index_set.c", "libzdb/index.c", "libzdb/index_seq.c"],
  [("record written", "libzdb/index_set.c index_item_from_set"), ("in-place rewrite", "libzdb/index_seq.c index_seq_overwrite"), ("listing", "tools/index-dump/index-dump.c")],
  observe=["output of index-dump", "headers of the data records"])
p("K14", "With --sync, an acknowledged write survives a power loss",
  "When the daemon runs with --sync, everything a command was acknowledged for (keys, payloads, overwritten and deleted values, settings) is served again after a loss of power at any later moment, when of each file only what was forced to the disk remains. The recovered namespaces hold no stale or foreign value, and accept further writes.",
  ["crash_points", "histories"], "every history of mutating commands in either mode with a loss of power after any write system call; creation, removal and renaming of files count as durable at once",
  "No test uses --sync; a lost page cache can not be produced by a test client.",
  ["libzdb/data.c", "libzdb/index.c", "libzdb/index_set.c", "libzdb/index_seq.c", "libzdb/namespace.c"],
  [("forcing of data writes", "libzdb/data.c data_write"), ("forcing of index writes", "libzdb/index.c index_write")],
  observe=["RESP replies after the daemon is started again on what was forced to the disk"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
