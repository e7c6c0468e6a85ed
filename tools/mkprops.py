#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source, so that ids and wording stay consistent)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("P01", "A download is every published file once, in prefix order",
  "A successful `hibp-download` leaves exactly the records of every published prefix file from 00000 up to the limit: ascending by prefix, each file once, its lines in file order with the prefix put in front, in the chosen format (sha1, ntlm, sha1t64 or text). This does not depend on the order or grouping in which responses arrive, on --parallel-max, on how fast the writer is, or on the shape of a file (CRLF or LF, missing final newline, empty file, empty lines, very long file). When every request is answered well and nothing else fails, the download succeeds.",
  ["schedules", "inputs", "configurations"],
  "All completion orders and batches of the concurrent requests, all interleavings of the network thread and the writer thread, all file contents and sizes, all formats, all values of --parallel-max and --limit.",
  "The system tests download one fixed set of 256 files from a fast local server, once per format; they never choose a completion order, a slow writer, a small parallel limit or an unusual file.",
  ["src/dnl/queuemgt.cpp", "src/dnl/requests.cpp", "app/hibp_download.cpp", "include/dnl/shared.hpp", "include/hibp.hpp"],
  [("process_queue reorders downloads; only the file with next_index is written", "src/dnl/queuemgt.cpp service_queue"),
   ("message queue between the two threads", "src/dnl/queuemgt.cpp enqueue_downloads_for_writing"),
   ("slots, next_index", "src/dnl/requests.cpp fill_download_queue/process_curl_done_msg"),
   ("prefixing and CR stripping", "src/dnl/queuemgt.cpp write_lines")],
  [("download_slots", "requests in flight", "src/dnl/requests.cpp"), ("msg_queue", "batches handed to the writer", "src/dnl/queuemgt.cpp"),
   ("process_queue", "finished files waiting for their turn", "src/dnl/queuemgt.cpp")],
  ["output file", "lines handed to the writer", "HTTP requests"])

p("P02", "Download success means complete; an abort leaves a whole-file prefix",
  "`hibp-download` exits 0 only if every prefix file in the requested range was obtained and written. If any file cannot be obtained it exits non-zero, and what is in the output is then the beginning of the complete output, cut exactly at the end of some prefix file (unless the output itself could not be written).",
  ["fault_sequences", "schedules"],
  "Every pattern of permanent and transient failures over the files, every position of the failing file, every interleaving of the failure with writing.",
  "No test makes any request fail; the exit status on failure and the content left behind are never looked at.",
  ["src/dnl/queuemgt.cpp", "src/dnl/requests.cpp", "app/hibp_download.cpp"],
  [("hard failure throws in the requests thread and stops the writer", "src/dnl/requests.cpp process_curl_done_msg, src/dnl/queuemgt.cpp run"),
   ("exceptions of both threads turn into an exit status", "src/dnl/queuemgt.cpp run, app/hibp_download.cpp main")],
  [("finished_dls", "no more downloads will come", "src/dnl/queuemgt.cpp")],
  ["exit status", "output file", "lines handed to the writer"])

p("P03", "Failed transfers are retried cleanly, five times, then abort",
  "A request that fails (transport error, truncated body, a transfer which comes to a standstill for some seconds, or any HTTP status but 200) is tried again, up to five more times, and if one of these attempts succeeds the download carries on as if nothing had happened: no byte of a failed attempt reaches the output. Only when all six attempts of one file have failed is the download aborted.",
  ["fault_sequences", "schedules"],
  "All kinds of failures, on any subset of the files, at any attempt, with any part of a body already delivered, in any order relative to other responses.",
  "The mock server of the tests never fails a request.",
  ["src/dnl/requests.cpp", "include/dnl/shared.hpp"],
  [("retries_left, buffer.clear(), re-adding the handle", "src/dnl/requests.cpp process_curl_done_msg"), ("max_retries", "include/dnl/shared.hpp")],
  [("retries_left", "attempts left for a file", "include/dnl/shared.hpp")],
  ["HTTP requests", "output file", "exit status"])

p("P04", "A download always terminates",
  "Whether the server answers, fails or (for some seconds) falls silent, `hibp-download` (also with --resume) comes to an end (with success or failure): it never hangs or spins waiting for the other thread, whichever thread fails or finishes first, and whether or not the writer fails.",
  ["schedules", "fault_sequences"],
  "All interleavings of completion, failure, writer failure and stop requests between the network thread and the writer thread.",
  "The tests run the success path only, with the default interleaving.",
  ["src/dnl/queuemgt.cpp", "src/dnl/requests.cpp"],
  [("condition variable with stop_token", "src/dnl/queuemgt.cpp service_queue"), ("finished_downloads()", "src/dnl/queuemgt.cpp"), ("stop requests across threads", "src/dnl/queuemgt.cpp run, src/dnl/requests.cpp process_curl_messages")],
  [("stop_source", "stop requests between the threads", "src/dnl/queuemgt.cpp run")],
  ["process termination"])

p("P05", "Only the needed files are requested, never too many at once",
  "During a download there are never more than --parallel-max requests outstanding. Each prefix in the range is requested with the right URL (five upper-case hex digits, mode=ntlm exactly for NTLM) and nothing outside the range is; once a file has been received successfully it is not requested again; and once the output cannot be written any more, the requests stop soon instead of going through the rest of the range.",
  ["schedules", "configurations", "fault_sequences"],
  "All values of --parallel-max, --limit and start position, all completion orders and retry patterns.",
  "The tests look only at the output; the mock server does not record or check what is asked of it.",
  ["src/dnl/requests.cpp", "include/hibp.hpp"],
  [("fill_download_queue bounds the slots", "src/dnl/requests.cpp"), ("url()", "include/hibp.hpp")],
  [("download_slots", "requests in flight", "src/dnl/requests.cpp")],
  ["HTTP requests seen by the server"])

p("P06", "Resuming after a crash at any point gives the full download",
  "If a binary download was cut off at any byte (including before the first record), then running it again with --resume, as often as it takes and with further cut-offs in between, ends with exactly the file an uninterrupted download would have produced. A resume that cannot continue safely refuses and leaves a file that is still the beginning of a good download; it never mixes two versions of one prefix file.",
  ["crash_points", "histories", "inputs"],
  "All byte lengths at which the output can be cut, all sequences of cut and resume, all three binary formats, all contents (including empty prefix files), and server files that gain records in between.",
  "--resume is not tested at all.",
  ["src/dnl/resume.cpp", "app/hibp_download.cpp"],
  [("trim to whole records; compare last record with end of its file; else search back and trim", "src/dnl/resume.cpp get_last_prefix"), ("append mode from the start index", "app/hibp_download.cpp")],
  [("output file", "records written so far plus a torn tail", "file system")],
  ["output file after resume", "exit status", "HTTP requests"])

p("P07", "A lookup finds a hash exactly if the database has it",
  "For every sorted database (sha1, ntlm, sha1t64, of any size including empty) and every query, `hibp-search` reports `found` with the stored hash and count if the hash is in the database and `not found` otherwise; by hash and by plaintext password give the same answer. A query that is not a valid upper-case hash of that type is refused.",
  ["inputs"],
  "All databases (sizes around the read-buffer boundaries, hashes that differ in one byte anywhere, extreme byte values) and all needles: present, absent, below the first, above the last.",
  "test_search looks up records that are present in one fixed database only; it never looks for a hash that is absent, and hibp-search is not built by the tests.",
  ["app/hibp_search.cpp", "include/flat_file.hpp", "include/hibp.hpp", "include/arrcmp.hpp"],
  [("lower_bound over flat_file iterators, then equality", "app/hibp_search.cpp run_search"), ("get_record buffer", "include/flat_file.hpp")],
  [], ["stdout of hibp-search", "lower_bound over flat_file::database"])

p("P08", "A lookup with a table of contents answers the same as without",
  "For every sorted database, every supported number of ToC bits and every query, a lookup through the table of contents gives the same answer as a lookup without it, for complete and partial databases and for queries beyond the end. If the database has a gap for which no ToC can be built, building it fails with an error; there is never a different answer. A number of bits outside the supported range is refused.",
  ["inputs", "configurations"],
  "All databases (chapter sizes 1 and more, first, last and only chapter, partial or complete), all --toc-bits 15 to 25, all three formats, needles present, absent, and at chapter borders.",
  "test_search uses one database, one bit width and only needles that are present.",
  ["src/toc.cpp", "app/hibp_search.cpp", "src/srv/server.cpp"],
  [("details::build", "src/toc.cpp"), ("details::search", "src/toc.cpp"), ("pw_to_prefix", "src/toc.cpp")],
  [("toc<PwType>", "position of the first record of each chapter", "src/toc.cpp")],
  ["toc_search result", "stdout of hibp-search --toc"])

p("P09", "A stored table of contents is never trusted when stale or torn",
  "Whatever the history of database updates, searches with different bit widths (also several at the same time) and crashes or full disks while a table of contents is written, a search with --toc answers for the database as it is now: a ToC file older than (or as old as) the database is rebuilt, and a partly written ToC file is never used.",
  ["histories", "crash_points", "fault_sequences"],
  "All sequences of database rewrite, search with some bit width, a second search started while one saves its ToC, and crash or write failure at any byte or call while the ToC file is saved.",
  "The tests never change a database after its ToC was written and never interrupt the save.",
  ["src/toc.cpp"],
  [("mtime comparison", "src/toc.cpp toc_build"), ("save/load", "src/toc.cpp")],
  [("toc file", "serialised table next to the database", "file system")],
  ["answers of hibp-search --toc", "toc file"])

p("P10", "topn keeps exactly the N most common records, sorted by hash",
  "`hibp-topn -N n` writes exactly n records of the input: no record left out has a higher count than one kept, ties at the border go to the smaller hash, and the output is in ascending hash order with hashes and counts unchanged. With --stdout, standard output is exactly that database; if n is not smaller than the input, it refuses.",
  ["inputs", "configurations"],
  "All databases (any order, any tie structure, negative or extreme counts), all n from 0 to the size, all three formats, output to file or standard output.",
  "One fixed database and one n (10000) are compared with a golden file.",
  ["app/hibp_topn.cpp", "include/flat_file.hpp"],
  [("partial_sort_copy by count, sort by hash", "app/hibp_topn.cpp build_topn")],
  [], ["output database", "exit status"])

p("P11", "Disk sort yields a sorted permutation for any memory limit",
  "`hibp-sort` (by hash ascending, or by count descending with hash ascending as tie-break) writes a file with exactly the records of the input, in order, however the input is split into chunks by the memory limit, for any input size including empty, and for any path of the input. The input is left as it was and no temporary chunk file remains.",
  ["inputs", "configurations"],
  "All inputs (sorted, reversed, duplicates, empty, single), all chunk sizes from one record up, every number of chunks and size of the last one, all formats.",
  "hibp-sort and disksort have no tests.",
  ["include/flat_file.hpp", "app/hibp_sort.cpp"],
  [("sort_into_chunks / merge_sorted_chunks / disksort_range", "include/flat_file.hpp")],
  [("chunk files", "sorted runs on disk", "include/flat_file.hpp"), ("heads", "merge heap", "include/flat_file.hpp")],
  ["sorted file", "directory content", "input file"])

p("P12", "Conversion between text and binary loses nothing",
  "`hibp-convert` turns each text line HASH:COUNT into one binary record and back, in order, with the same hash and count; converting text to binary to text gives back the same text (in upper case, LF line ends) and binary to text to binary the same bytes. --limit n converts exactly the first min(n, all) records in both directions, and files and standard streams are equivalent.",
  ["inputs", "configurations"],
  "All record contents (all byte values, counts from -1 to 2147483647), line ends CRLF or LF, with or without final newline, sha1 and ntlm, any limit including 0, any size around the buffer sizes.",
  "hibp-convert has no tests.",
  ["app/hibp_convert.cpp", "include/hibp.hpp", "include/flat_file.hpp"],
  [("txt_to_bin / bin_to_txt", "app/hibp_convert.cpp"), ("pawned_pw(text) / to_string", "include/hibp.hpp"), ("stream_writer", "include/flat_file.hpp")],
  [], ["output file or stdout"])

p("P13", "Applying a diff to the old database gives the new one",
  "For two hash-sorted databases of which the new one still has every hash of the old one, `hibp-diff` prints updates (U:position:record) and insertions (I:position:record, before that position of the old database) which applied to the old database give exactly the new one, with no superfluous hunk, and exits 0. If a hash of the old database is missing from the new one, it fails with an error.",
  ["inputs"],
  "All pairs of sorted databases: any number and adjacency of insertions and updates, at the ends and across read-buffer boundaries, any deletion or replacement, empty databases, sha1 and ntlm.",
  "The unit tests use old databases of three records and a handful of single changes; sizes beyond one read buffer and adjacent changes are never tried.",
  ["src/diffutils.cpp", "include/flat_file.hpp", "app/hibp_diff.cpp"],
  [("run_diff", "src/diffutils.cpp"), ("iterators over a shared buffer", "include/flat_file.hpp")],
  [("old/new cursors", "position of the comparison", "src/diffutils.cpp")],
  ["diff output", "exit status / exception"])

p("P14", "The server answers each request with the count of that password",
  "For GET /check/sha1|ntlm|sha1t64/HASH the server answers 200 with the stored count, or -1 if the hash is not in that database; for /check/plain/PASSWORD (UTF-8, percent-encoded like any URL) it does the same for the hash of the password in the sha1 database if there is one, otherwise in one of the others. A malformed hash, or a format for which no database was given, is answered with 400 and an explanation, and anything else with 404; --json and --toc change only the notation and the speed, never the count.",
  ["inputs", "configurations"],
  "All combinations of databases passed, --json, --toc, all request paths, all passwords (reserved characters, spaces, slashes, percent signs, UTF-8), all hashes present or absent.",
  "The tests make a dozen fixed requests with alphanumeric passwords to one configuration of databases.",
  ["src/srv/server.cpp", "app/hibp_server.cpp", "src/toc.cpp"],
  [("get_router, handle_plain_search, handle_hash_search, search_and_respond", "src/srv/server.cpp")],
  [], ["HTTP responses"])

p("P15", "Concurrent server requests do not influence each other",
  "Whatever requests are handled at the same time, in whatever order, on however many connections and worker threads, and whatever errors earlier requests ran into or other clients do (send rubbish or endless requests, stall, leave their answer unread, go away, open too many connections), each response is the one its own request would get on an idle, freshly started server, and is delivered on the connection that asked, in order.",
  ["schedules", "histories"],
  "All interleavings of concurrent requests on several keep-alive or pipelined connections and all thread counts, with and without --toc, next to well and badly behaved other clients.",
  "The tests send one request at a time.",
  ["src/srv/server.cpp", "include/flat_file.hpp", "src/toc.cpp"],
  [("thread_local database per format", "src/srv/server.cpp get_router"), ("read-only shared toc", "src/toc.cpp")],
  [("thread_local db", "file stream and buffer of one worker thread", "src/srv/server.cpp")],
  ["HTTP responses under load"])

p("P16", "Reading a record through an iterator never depends on history",
  "For every database, buffer size and sequence of operations on any number of iterators (moving, copying, dereferencing, comparing) and direct record reads, each read returns the record stored at that position, dereferencing the end is refused, and a failed read never makes a later one return something else.",
  ["histories", "inputs", "configurations"],
  "All interleavings of operations on several iterators over one database, all buffer sizes (smaller and larger than the file), forward and backward.",
  "flat_file has no unit tests; the search tests use one access pattern.",
  ["include/flat_file.hpp"],
  [("get_record window [buf_start_, buf_end_)", "include/flat_file.hpp"), ("const_iterator", "include/flat_file.hpp")],
  [("buf_, buf_start_, buf_end_", "the records in memory", "include/flat_file.hpp")],
  ["values returned by iterators and get_record"])

p("P17", "No tool reports success when its output could not be written",
  "When the disk is full or a write fails at any point, up to and including the last buffered byte, hibp-download (binary and text), hibp-convert, hibp-topn, hibp-sort and hibp-diff end with a non-zero status; a zero status means that the complete output has reached the file or pipe.",
  ["fault_sequences", "inputs"],
  "Failure of any of the writes of a run, from the first to the one at close, for outputs smaller and larger than any internal buffer, to files and to standard output.",
  "No test makes a write fail.",
  ["include/flat_file.hpp", "app/hibp_download.cpp", "app/hibp_convert.cpp", "app/hibp_topn.cpp", "app/hibp_sort.cpp", "app/hibp_diff.cpp", "include/dnl/queuemgt.hpp"],
  [("stream exceptions and flush in stream_writer", "include/flat_file.hpp"), ("checks at the end of each program", "app/")],
  [("buf_pos_", "records not yet handed to the stream", "include/flat_file.hpp")],
  ["exit status", "output file"])

p("P18", "Existing data is not overwritten or damaged by mistake",
  "hibp-download, hibp-convert and hibp-topn never change an existing output file unless --force (or for the downloader --resume) was given; a command refused for contradictory options or an unusable input fails and leaves existing files as they were. No tool ever changes its input database.",
  ["inputs", "configurations", "histories"],
  "All combinations of options and of existing, missing, torn, empty and identical input and output files.",
  "No test runs a tool with an existing output or with contradictory options.",
  ["app/hibp_download.cpp", "app/hibp_convert.cpp", "app/hibp_topn.cpp", "app/hibp_sort.cpp", "app/hibp_search.cpp"],
  [("check_options", "app/hibp_download.cpp, app/hibp_convert.cpp"), ("get_output_stream", "app/hibp_convert.cpp, app/hibp_topn.cpp")],
  [("file system", "which files exist with which content", "file system")],
  ["exit status", "content of all files before and after"])

p("P19", "The NTLM hash is MD4 of the UTF-16LE password",
  "For every valid UTF-8 password of any length, the NT hash used for NTLM lookups is the MD4 digest of its UTF-16 little-endian encoding (with surrogate pairs beyond the BMP); input that is not valid UTF-8 is refused.",
  ["inputs"],
  "All passwords: all lengths around the MD4 block and padding boundaries, several blocks, all Unicode planes, all ill-formed byte sequences.",
  "No test that runs here computes an NTLM hash.",
  ["src/ntlm.cpp", "src/md4.c"],
  [("utf8_to_utf16_le, ntlm", "src/ntlm.cpp"), ("MD4_Init/Update/Final", "src/md4.c")],
  [], ["hibp::ntlm()"])

p("P20", "hibp-dupes reports exactly the truncated duplicates",
  "For a hash-sorted database and a number of bits from 32 to 64, `hibp-dupes` prints one line for each record whose leading bits equal those of the record before it, and no other. A number of bits outside that range is refused.",
  ["inputs", "configurations"],
  "All databases (empty, first record all ones, runs of duplicates, duplicates across read-buffer boundaries), bits 32 to 64, sha1 and ntlm.",
  "hibp-dupes has no tests.",
  ["app/hibp_dupes.cpp"],
  [("run_search", "app/hibp_dupes.cpp")], [], ["stdout"])

p("P21", "A torn or missing database is refused, not misread",
  "Every tool that reads a binary database (search, server, topn, sort, convert, diff, dupes) refuses with a non-zero status and an error message a file that does not exist or whose size is not a whole number of records of the chosen format; it gives no answer and produces no record from such a file. A file that exists and consists of whole records is not refused for its size.",
  ["inputs", "configurations", "crash_points"],
  "Every length of a torn file, every tool and format.",
  "No test opens a torn or missing database.",
  ["include/flat_file.hpp", "app/"],
  [("size check in the database constructor", "include/flat_file.hpp"), ("exception to exit status", "app/*.cpp main")],
  [], ["exit status", "stdout", "files created"])

p("P22", "Malformed text never becomes a record",
  "A text line that does not begin with a full-length hexadecimal hash (too short, blank, or containing other characters) makes hibp-convert and a binary hibp-download fail with a non-zero status; no record that was not in the text is ever written; a line with a hash but a missing or unreadable count becomes a record with count -1 (unknown), never with a number from elsewhere. (A text download passes lines on as they are; an empty line of a prefix file is no line.)",
  ["inputs"],
  "All byte strings as lines, at any position of the input, for all formats.",
  "No test feeds malformed text to either program.",
  ["include/hibp.hpp", "src/dnl/queuemgt.cpp", "app/hibp_convert.cpp"],
  [("pawned_pw(text)", "include/hibp.hpp")], [], ["exit status", "output database"])

p("P23", "Records are ordered by their hash bytes, unsigned, first byte first",
  "Comparing two records of a format (less, equal, three-way) gives the unsigned lexicographic comparison of their hash bytes and ignores the count; the same holds for the fixed-size byte arrays of any length behind it. It is a total order consistent with the order of the printed hashes.",
  ["inputs"],
  "All pairs of hashes, differing in any number of byte positions with any values; all array lengths up to several vector widths.",
  "test_arrcmp sets one byte in each array out of nine values; arrays that differ in several places, and the record types themselves, are not compared.",
  ["include/arrcmp.hpp", "include/hibp.hpp"],
  [("array_compare, three_way, equal", "include/arrcmp.hpp"), ("operator<=>, operator==", "include/hibp.hpp")], [], ["comparison results"])

p("P24", "The tools need little memory, whatever the size of the database",
  "The memory a tool needs does not grow with the size of its input. hibp-convert, hibp-diff, hibp-dupes and hibp-search need a few megabytes for a database of any size; hibp-topn in addition the N records it keeps; hibp-sort about two times --max-memory (and a small buffer per chunk); a table of contents four bytes per entry; hibp-server no more after many requests than after a few; hibp-download what is in transfer, as long as files do not arrive faster than they are written and in about the requested order.",
  ["inputs", "configurations"],
  "All sizes of databases (ordered or not), all values of --max-memory, -N and --toc-bits, any number of requests or prefix files.",
  "The tests use databases of a few hundred records, for which even a tool that loads everything needs no noticeable memory, and measure no memory.",
  ["include/flat_file.hpp", "app/hibp_topn.cpp", "app/hibp_sort.cpp", "src/toc.cpp", "src/diffutils.cpp", "app/hibp_convert.cpp", "src/dnl/queuemgt.cpp", "src/srv/server.cpp"],
  [("buffered access to a file of any size", "include/flat_file.hpp database::get_record"), ("chunks of max_memory, merged with a small buffer each", "include/flat_file.hpp sort_into_chunks, merge_sorted_chunks"),
   ("partial_sort_copy into N records", "app/hibp_topn.cpp build_topn"), ("a download is freed when it has been written", "src/dnl/queuemgt.cpp service_queue")],
  [("buf_", "the only records of a database in memory", "include/flat_file.hpp")],
  ["peak resident memory of the processes"])

p("P25", "A query reads a few blocks, every other tool reads its input once",
  "A query (hibp-search, or a request to hibp-server) reads about log2(n) small blocks of a database of n records, and with a table of contents about log2 of the number of records with the same leading bits; it never scans. The table of contents is built in one pass when it is missing or out of date, and is not built again when the stored one is current. hibp-convert, hibp-topn, hibp-sort, hibp-diff and hibp-dupes, and the building of the table, read each byte of their input once (at most a small constant number of times).",
  ["inputs", "configurations"],
  "All sizes of databases, even and uneven distributions over the prefixes, complete and partial databases, all --toc-bits, queries for present and absent hashes.",
  "The tests look at answers only, with databases which fit into one block.",
  ["include/flat_file.hpp", "src/toc.cpp", "app/hibp_search.cpp", "src/srv/server.cpp", "src/diffutils.cpp", "app/hibp_dupes.cpp", "app/hibp_convert.cpp", "app/hibp_topn.cpp"],
  [("binary search with random access iterators", "app/hibp_search.cpp run_search, src/srv/server.cpp, src/toc.cpp search"), ("a big buffer for sequential access", "src/toc.cpp build"),
   ("the stored table is loaded if current", "src/toc.cpp toc_build")],
  [("toc", "position of the first record of each prefix", "src/toc.cpp"), ("buf_start_, buf_end_", "the block in memory", "include/flat_file.hpp")],
  ["read() calls on the database files"])

p("P26", "Every route to a database gives the same database",
  "The result of each tool depends only on the contents of its input files, so that tools can be combined in any order: a binary download, a converted text download, and a download which was cut off by a crash and resumed are the same database; hash-sorting a database which was sorted by count, converted, or (as text) sorted with sort(1) gives back the same records in the same order; the top N of the top M (N < M) is the top N, also of two databases put together; the diff of two routes is empty; a lookup, with or without a table of contents left over from what the file was before, answers from its present contents. A step which is refused (torn input, existing output without --force, N not less than the size) changes no file, and no step changes files other than its output or leaves files behind.",
  ["inputs", "histories"],
  "All histories of steps (download, crash, resume, convert, sort, topn, concatenation, diff, dupes, search, new publications) over several files, in all formats.",
  "The tests run one tool at a time, on one prepared input.",
  ["app/", "include/flat_file.hpp", "src/dnl/resume.cpp", "src/toc.cpp", "src/diffutils.cpp"],
  [("outputs of one tool are inputs of the others", "include/hibp.hpp, include/flat_file.hpp"), ("last whole record decides where a download goes on", "src/dnl/resume.cpp"),
   ("a table older than the database is not used", "src/toc.cpp toc_build")],
  [("the users files", "contents of binary and text databases", "file system")],
  ["exit status", "contents of all files after each step", "answers of diff, dupes and lookups"])

p("P27", "Queries stay local, and data comes only from the authentic service",
  "hibp-server can be reached exactly at the address and port it was given (without --bind-address from this machine only), and only after it has prepared its databases; if it cannot have that address it fails with a message instead of serving elsewhere. hibp-server and hibp-search open no other connection or listening socket, and what was asked is in no file, log or message afterwards. hibp-download asks only https://api.pwnedpasswords.com (with --testing only the local test server), sends nothing to and takes nothing from a host which cannot prove to be that, and then fails.",
  ["histories", "configurations"],
  "All histories of starts and stops of several servers with all addresses and ports, all kinds of queries (well-formed or not), hosts with false certificates, first downloads and resumes.",
  "The tests start one server on the default address and look at the answers only; the downloader is only run against the unencrypted local test server.",
  ["src/srv/server.cpp", "include/srv/server.hpp", "app/hibp_server.cpp", "app/hibp_search.cpp", "include/hibp.hpp", "src/dnl/requests.cpp"],
  [("address and port of the server", "src/srv/server.cpp run_server, include/srv/server.hpp cli_config_t"), ("databases are prepared before listening", "app/hibp_server.cpp main"),
   ("https url, certificate verified by libcurl", "include/hibp.hpp url(), src/dnl/requests.cpp")],
  [("bind_address, port", "where the server listens", "include/srv/server.hpp")],
  ["listening sockets and connections", "files and output after queries", "connections of hibp-download"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
