#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
REG = "src/rsfile/rsfile_registries.py"; ABS = "src/rsfile/rsfileio_abstract.py"; UNX = "src/rsfile/rsfileio_unix.py"
STR = "src/rsfile/rsfile_streams.py"; FAC = "src/rsfile/rsfile_factories.py"; UTI = "src/rsfile/rsfile_utilities.py"
BKU = "src/rsfile/rsbackend/_utilities.py"; BKX = "src/rsfile/rsbackend/unix_stdlib.py"; WIN = "src/rsfile/rsfileio_windows.py"
DEF = "src/rsfile/rsfile_definitions.py"

def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Conflicting byte-range locks never coexist within a process",
  "Whatever sequence of lock, unlock and close operations the streams of one process perform on a file, from any threads, the byte ranges locked at any moment never conflict: two ranges that share a byte belong to different native handles and are both shared. A range without length (or of length 0) extends to infinity, and locks of different files never interact.",
  ["inputs", "histories", "schedules"], "every set of locks held, every new range, sharing mode, handle and file, and every interleaving of the threads",
  "The tests lock a handful of fixed ranges on one file; the guarantee is over all interval configurations (adjacent, nested, infinite, zero length), all handles and all previous histories.",
  [REG, ABS], [("overlap test before a lock is recorded", REG + ":_try_locking_range"), ("all table accesses under one mutex", REG + ":register_file_lock")],
  [("lock table", "per file: list of (handle, shared, start, end) currently held by this process", REG)], ["result of lock_file()", "lock table"])
p("C02", "A lock request is granted exactly when it conflicts with nothing",
  "A lock request that conflicts with no lock held in the process is granted and recorded with exactly the handle, sharing mode and range requested; one that overlaps a range its own native handle already holds is never granted, whatever the sharing modes, and raises RuntimeError unless another handle's conflicting lock already makes it wait or fail. A request that is not granted leaves every lock held as it was, and a waiting request is never answered with a refusal.",
  ["inputs", "histories", "schedules"], "every set of locks held, every request (blocking or not)",
  "Spurious refusals and side effects of refused requests appear only for particular interval layouts (touching ranges, infinite ranges, several shared owners); the tests try a few.",
  [REG], [("overlap test", REG + ":_try_locking_range"), ("wait loop", REG + ":register_file_lock")], [], ["result of lock_file()", "lock table"])
p("C03", "Unlocking releases exactly the range named, or nothing",
  "Unlocking a range removes the one lock of that native handle that has exactly this start and end, and leaves every other lock of every handle and file as it was. When other locks are held on that file but the handle holds no lock with exactly this range (part of a range, a merged range, another handle's range), it raises RuntimeError and changes nothing.",
  ["inputs", "histories"], "every set of locks held, every range and handle given to unlock",
  "Needs all combinations of recorded ranges and requested range; tests try a few wrong ranges on one handle.",
  [REG, ABS], [("exact match on handle, start and end", REG + ":_try_unlocking_range"), ("all locks of a handle removed on close", REG + ":remove_file_locks")], [], ["unlock_file()", "lock table"])
p("C04", "Releasing a lock always wakes the threads waiting for that file",
  "Whenever a lock is released, by unlocking or by closing its stream, every thread of the process that is blocked waiting for a lock on that file is woken up, so that it tries again. Whatever the history, the bookkeeping of a file on which threads wait or locks are held is never discarded, and it disappears once a stream that owns its descriptor is closed with nothing left.",
  ["histories", "schedules"], "every history of lock, unlock, close and wait operations, every number of waiting threads",
  "A lost wake-up shows only when a thread is already blocked in the process at the moment of the release, on one particular release path; the tests wait with time-outs or release by unlocking.",
  [REG], [("condition variable per file, notified on release", REG + ":_try_unlocking_range, remove_file_locks"), ("waiter count", REG + ":register_file_lock, try_deleting_unique_id_entry")],
  [("waiter count", "number of threads blocked on the condition of the file", REG)], ["return of blocked lock_file() calls"])
p("C05", "A lock request succeeds at both levels or leaves no trace",
  "When a lock request returns, the range asked for is locked both in the process-wide table and in the operating system, with the same start, length and sharing mode, and both attempts name the same absolute range (offset counted from the start, the current position or the end of the file, as asked). When it raises, whatever the failure, neither level keeps anything of the request.",
  ["inputs", "fault_sequences", "histories"], "every combination of arguments, file position and size, and every sequence of refusals and errors from the process table and from the kernel",
  "Needs a failure injected between the two acquisitions, repeated any number of times; tests see contention at a few moments only.",
  [ABS, UNX], [("two-step acquisition with rollback", ABS + ":lock_file"), ("offset conversion", ABS + ":_convert_relative_offset_to_absolute"), ("native lock call", UNX + ":_inner_file_lock")], [], ["lock_file()", "fcntl calls"])
p("C06", "Releasing or closing one stream keeps the other streams' OS-level locks",
  "On POSIX systems, releasing a range through a stream, or closing the stream, takes away the operating-system lock of exactly the ranges that stream held: bytes locked through any other stream of the process on the same file stay locked at operating-system level. In particular no descriptor of a file is closed while the process holds any lock on that file through rsfile.",
  ["histories", "inputs"], "every set of streams and locks on a file within the process, every order of unlock and close operations",
  "fcntl locks silently vanish when any descriptor of the file is closed; it takes a specific history (several descriptors, one closed while another holds a lock) and an observer in another process to see it.",
  [UNX, ABS, REG], [("pending descriptors kept open while locks remain", UNX + ":_inner_close_streams, _purge_pending_related_file_descriptors"), ("native unlock of the released range", UNX + ":_inner_file_unlock"), ("close releases each range", ABS + ":close")],
  [("pending descriptors", "descriptors of closed streams kept open because locks remain", REG)], ["fcntl and close calls", "locks seen by another process"])
p("C07", "A stream's descriptor is closed once, when due, and never when not owned",
  "Closing a stream that owns its descriptor closes that descriptor exactly once: at once if the process holds no other lock on the file, otherwise when the last such lock is released through an unlock or a close. A descriptor wrapped with closefd=False is never closed by the stream, and closing twice has no further effect.",
  ["histories", "inputs"], "every set of open streams and locks on a file, every order of unlocks and closes",
  "Descriptor leaks and double closes depend on the order in which several streams of a file are unlocked and closed; tests use one or two streams.",
  [UNX, ABS, REG], [("deferred close list", UNX + ":_inner_close_streams"), ("purge when no lock remains", UNX + ":_purge_pending_related_file_descriptors"), ("close", ABS + ":close")], [], ["close() calls on descriptors"])
p("C08", "A lock request with a time-out never blocks beyond it",
  "A lock request given a time-out never enters an unbounded wait, neither on other threads nor in the kernel; it keeps retrying as long as the time-out has not elapsed, and the first refusal seen after that makes it raise a LockingException. A request without time-out waits until granted, except that with the process-wide enforced time-out it also never enters an unbounded wait and raises RuntimeError at the first refusal after that delay; malformed requests are rejected at once.",
  ["inputs", "schedules", "fault_sequences"], "every time-out value, option value, clock reading and sequence of refusals",
  "Tests check a few delays with real sleeps; which primitive is called in blocking mode under which option combination, for every sequence of refusals, they cannot enumerate.",
  [ABS, REG], [("spin loop and deadline test", ABS + ":lock_file"), ("process-global options", REG + ":set_rsfile_options")], [], ["lock_file() exceptions", "blocking flag of the native call"])
p("C09", "The lock context manager releases the same bytes however the block ends",
  "The context manager returned by a successful lock request releases exactly the range that was locked, at absolute position, even if the file position or size has changed since. It does so whether the block ends normally or by an exception, and never swallows that exception.",
  ["inputs", "histories", "fault_sequences"], "every locked range and whence, every change of position and size within the block, every way of leaving it",
  "Tests leave the block normally; the guarantee is about every exit and every change of state made inside the block.",
  [ABS, STR], [("context manager on the absolute range", ABS + ":_lock_remover, lock_file")], [], ["unlock performed at block exit"])
p("C10", "Buffered data never crosses a lock boundary",
  "Through a buffered or text stream, everything written before a range is unlocked (by unlock_file or at the end of the lock's with-block) has been handed to the operating system before the lock is released, and a lock request first pushes out pending writes and drops read-ahead data, so that what is read under the lock comes from the file. When pushing out the data fails, the error reaches the caller; for unlock_file the lock is then kept.",
  ["histories", "inputs", "fault_sequences"], "every history of reads and writes before the lock operation, every stream type, flush failures included",
  "Visible only to another process that takes the lock at the right moment, for data sizes that stay in the buffer; tests flush explicitly or use unbuffered streams.",
  [STR], [("buffer reset before lock and unlock", STR + ":_buffer_forwarder_mixin, _text_forwarder_mixin")], [], ["order of raw write and raw unlock"])
p("C11", "The opening-mode language is interpreted exactly as documented",
  "For every mode string, standard or advanced, the opened stream's rights and creation, erasure, append, synchronised, inheritable, text and binary settings are those of the documented tables, independent of the order of the flags. Unknown, repeated, mixed-case or contradictory flags are rejected with an error before the filesystem or any descriptor is touched.",
  ["inputs", "configurations"], "every string as mode, with every combination of the other arguments that interact with it",
  "The retrocompatibility tests enumerate standard modes and a subset of advanced ones on one file; there are thousands of advanced combinations and unboundedly many invalid strings.",
  [FAC, ABS, DEF], [("mode parsers", FAC + ":parse_standard_args, parse_advanced_args"), ("consistency checks", FAC + ":rsopen; " + ABS + ":__init__")], [], ["open() request issued", "exceptions"])
p("C12", "Opening by path asks the OS for exactly the requested rights",
  "On POSIX systems, opening by path issues one native open with read and write access exactly as requested, append and synchronised flags exactly when requested, exclusive creation exactly for must-create, creation unless the file must exist, never truncation, and the permissions given; unless it erases the file, the stream then starts at the end of the file when appending and at its start otherwise. The new descriptor is inheritable exactly when requested, directories are refused, and a wrapped descriptor is used as it is.",
  ["inputs", "configurations"], "every combination of rights, creation mode, flags, permissions and path type",
  "A flag lost or added only in one combination changes security semantics without any visible failure in a single-process test.",
  [UNX, ABS], [("flag computation", UNX + ":_inner_create_streams")], [], ["open(), set_inheritable() calls"])
p("C13", "Erasing on opening happens only under the lock, and never on wrapped streams",
  "When a file is opened with erasure and locking, its content is not modified before the whole-file lock of the new stream is held; if the lock is refused or opening fails before it, the file keeps its content. Opening modes without erasure, and wrapping an existing descriptor or handle in any mode (descriptor 0 and those from an opener included), never change the file's size or content.",
  ["inputs", "schedules", "fault_sequences", "configurations"], "every mode, locking option, time-out, origin of the descriptor and outcome of the lock attempt",
  "Needs a conflicting lock or a failure at the right moment in every opening configuration, descriptor 0 included.",
  [FAC, ABS], [("lock then truncate", FAC + ":rsopen"), ("no O_TRUNC", UNX + ":_inner_create_streams")], [], ["order of lock and truncate calls"])
p("C14", "A failed opening leaks neither descriptor nor lock",
  "When opening a stream raises, for any reason (bad argument combination, directory, refused lock, failure of any system call after the descriptor exists, bad encoding or buffering), no descriptor opened by the call, nor one obtained from the caller's opener, stays open once the error reaches the caller (even if the exception object is kept), and no lock stays held. Descriptors given with closefd=False stay open.",
  ["fault_sequences", "inputs"], "every argument combination and every failing step of the opening sequence",
  "Requires a fault at each step after the descriptor is obtained; tests only check which exception is raised.",
  [FAC, ABS, UNX], [("cleanup handler", FAC + ":rsopen"), ("constructor failure", ABS + ":__init__; " + UNX + ":_inner_create_streams")], [], ["close() calls", "open descriptors after the failure"])
p("C15", "Truncation sets exactly the requested size and spares the rest",
  "Truncating a stream to a size n (or to the current position) makes the file exactly n bytes long and returns n; bytes below both the old and the new size keep their value, bytes added read as zero, and the file position does not move. A negative size, or a stream that is not writable or not seekable, raises and changes nothing.",
  ["inputs", "fault_sequences"], "every current size, position and requested size, and backends with or without native extension",
  "Tests try a few sizes; the fallback that pads with zeros in blocks is never run on POSIX.",
  [ABS, UNX, WIN], [("truncate", ABS + ":truncate"), ("native reduce and extend", UNX + ":_inner_reduce, _inner_extend")], [], ["file size, content and position"])
p("C16", "A stream never exceeds the rights it was opened with, nor acts once closed",
  "Reading through a stream opened without read access, writing or truncating through one opened without write access, exclusive locks without write access and shared locks without read access all raise without performing any operation on the file. After close, every operation raises ValueError and touches no descriptor (only asking for a right the stream never had may be answered no).",
  ["inputs", "histories", "configurations"], "every public operation with any arguments, every combination of rights, open or closed",
  "Tests check some operations in some modes; the guarantee covers all pairs, and absence of side effects.",
  [ABS], [("closed, readable, writable, seekable checks", ABS + ":read, readinto, write, truncate, lock_file, ...")], [], ["system calls issued"])
p("C17", "Raw reads and writes transfer exactly the bytes the kernel transferred",
  "A raw write hands the kernel exactly the caller's bytes, for each accepted buffer type, and returns the count it accepted, or None if it would block; the data land at the current position, or at the end of the file when appending, and no other byte changes. A raw read returns exactly the bytes obtained, never more than asked, empty at end of file, or None if it would block. Reading all returns the concatenation of everything read up to end of file, and reading into a buffer stores exactly the bytes returned and leaves the rest untouched; other kernel errors surface as OSError with their number.",
  ["inputs", "fault_sequences"], "every data and buffer type, every split of the data into partial reads and writes, every kernel error",
  "Short reads, short writes, would-block results and errors at arbitrary moments cannot be provoked in the ordinary tests.",
  [ABS, UNX], [("read, readinto, readall, write", ABS), ("native calls and error filter", UNX + ":_inner_read, _inner_write")], [], ["returned data and counts"])
p("C18", "Every call through the thread-safe interface runs under its mutex",
  "Every public method called on a thread-safe stream, on its first and on any later call, and each step of iterating over it, executes entirely while its mutex is held; the mutex is released afterwards whether the call returns or raises, and result or exception reach the caller unchanged. Attributes read through it are those the stream has at that moment. The mutex is the one provided by the caller, or else a new one: inter-process for inheritable streams where fork exists, inter-thread otherwise.",
  ["schedules", "histories", "inputs"], "every method, any arguments, every sequence of calls, every interleaving of threads",
  "A call that escapes the mutex only matters under a precise interleaving; tests with threads rarely hit it.",
  [STR, FAC], [("method proxy under the mutex", STR + ":RSThreadSafeWrapper"), ("choice of the mutex", FAC + ":rsopen")], [], ["mutex state during the wrapped call"])
p("C19", "Whole-file helpers read and write all of the data, or raise",
  "Writing or appending with the helpers returns normally only if every byte of the data has been accepted by the file after the previous content was erased (write) or kept (append), and was synchronised if asked, and creation constraints are honoured; reading returns the whole content in order. The file is closed however the helper ends.",
  ["inputs", "fault_sequences"], "every data, every option combination, every split into partial reads and writes",
  "Partial writes and reads, and failures between steps, do not occur in the tests' small files.",
  [UTI], [("read_from_file, write_to_file, append_to_file", UTI)], [], ["stream calls made, file content"])
p("C20", "Sizes and synchronisation never ignore buffered data, nor claim success falsely",
  "Asking a buffered or text stream for its size, or to synchronise, first pushes its pending writes to the operating system, and an error while doing so reaches the caller. A synchronisation that returns normally has completed a native synchronisation at least as strong as asked (full data and metadata unless metadata=False), on the stream's own descriptor, and a native primitive that the system does not support is replaced by another one rather than failing.",
  ["inputs", "histories", "fault_sequences", "configurations"], "every pending data, every option combination, every failure of each native primitive, platforms with and without each primitive",
  "A missing flush or a swallowed fsync failure is invisible without a crash or an injected error.",
  [STR, UNX, ABS], [("flush before size and sync", STR), ("sync primitives", UNX + ":_inner_sync")], [], ["order of flush and native calls"])
p("C21", "After a fork, the child starts without any lock of its parent",
  "In a child process created by fork, the locks of the parent count as not held: the first lock operation of any kind behaves as on an empty table, and the child can lock ranges the parent's table had. Without fork, no operation ever drops the table.",
  ["histories", "inputs"], "every table content at the fork, every first operation in the child",
  "Tests fork with one lock held and try one operation.",
  [REG], [("process id check before each operation", REG + ":_check_forking")], [("owner process id", "process for which the table is valid", REG)], ["first operation after fork"])
p("C22", "Win32 numeric encodings are exact",
  "Splitting a non-negative integer below 2^64 into low and high words and joining them again gives the same integer, the words being in range; signed and unsigned 32-bit conversions are inverse of each other on their ranges, and negative values are refused where documented. File times converted to seconds denote the same instant.",
  ["inputs"], "every integer in range, every word size",
  "Tests try random samples of the range.",
  [BKU], [("conversions", BKU)], [], ["returned values"])
p("C23", "On Windows, lock and unlock name the same native byte range",
  "For every offset and length below 2^64, the native range locked on Windows is exactly the bytes requested (up to at least offset 2^63-1 when no length is given), and unlocking with the same arguments names the identical range. The sharing and blocking flags passed are exactly those requested, and opening maps rights, creation mode, inheritance and write-through exactly as on POSIX.",
  ["inputs", "configurations"], "every length, offset and flag combination",
  "The Windows backend is not run by the tests on other systems, and there only with small ranges.",
  [WIN, BKU], [("range encoding", WIN + ":_win32_convert_file_range_arguments"), ("lock flags", WIN + ":_inner_file_lock"), ("open flags", WIN + ":_inner_create_streams")], [], ["LockFileEx, UnlockFileEx, CreateFile arguments"])
p("C24", "Process-wide options change only by valid, atomic updates",
  "Setting options with any unknown name raises and changes no option; otherwise exactly the given options change, to the given values. The options reported are a copy, so that modifying it changes nothing, and an opened stream uses the values in force when it was opened.",
  ["inputs", "histories"], "every set of names and values, every history of updates",
  "Tests set one option and restore it.",
  [REG, ABS], [("validation before update", REG + ":set_rsfile_options"), ("snapshot at construction", ABS + ":__init__")], [], ["options reported"])
p("C25", "Stream identity and metadata are those of the file actually opened",
  "The unique identifier of a stream is the device and inode of its own descriptor, never changes during its life, and is the one under which its locks are kept, so that two streams of the same file always share locks and those of different files never do. Size, times, descriptor and handle reported are those of that descriptor, descriptor 0 included.",
  ["inputs", "histories"], "every descriptor number, device, inode, size and time value, every sequence of calls",
  "Tests compare a few files; descriptor 0 and changing metadata are not covered.",
  [UNX, ABS], [("identifier caching", ABS + ":unique_id"), ("fstat getters", UNX + ":_inner_unique_id, _inner_size, _inner_times")], [], ["unique_id(), size(), times(), fileno()"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
