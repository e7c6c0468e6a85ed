"""property -> (module of the check, level, technique, what it assures)"""
MC = "model_checking"
DL = ("TLA+ model of the two threads, queues, retries and stop requests of the downloader checked with TLC "
      "(safety, and termination under fairness); TLC-generated and random scenarios replayed into the real "
      "src/dnl code over a simulated network and into hibp-download against a fault injecting server; every "
      "recorded run judged by the trace specification DownloadTrace.tla")
DLN = ("The design is checked exhaustively within small bounds (files, slots, failures, writer failure); the "
       "real code is run for the generated scenarios and several hundred random ones with random completion "
       "orders, delays and faults. Real thread schedules are sampled, not enumerated.")
CHECKS = {
    "P01": ("c_download", MC, DL, DLN),
    "P02": ("c_download", MC, DL, DLN),
    "P03": ("c_download", MC, DL, DLN),
    "P04": ("c_download", MC, DL, DLN),
    "P05": ("c_download", MC, DL, DLN),
    "P06": ("c_resume", MC,
            "TLA+ model of crash / server update / resume histories checked with TLC; the generated histories and "
            "every cut position of small downloads replayed with the real hibp-download, judged by ResumeTrace.tla",
            "The design is exhaustive for up to 3 prefix files and all cut positions; the real program is run on "
            "generated and random histories (formats, look-alike truncated hashes, error pages, empty files)."),
    "P07": ("c_lookup", MC,
            "TLA+ model of the binary search checked with TLC for all small databases and queries; these databases, "
            "and random ones around the buffer sizes, are searched with hibp-search; answers judged by LookupTrace.tla "
            "(which decides validity of the query and the expected answer)",
            "Exhaustive for small databases in the design; the tool is sampled on thousands of databases and queries. "
            "Password hashes are supplied by the recorder (hashlib SHA-1, MD4 checked under P19)."),
    "P08": ("c_lookup", MC,
            "TLA+ model of building and using a table of contents checked with TLC for all small prefix databases; "
            "these and random ones are built and searched with the real toc code (in memory, and reloaded) and "
            "hibp-search --toc; answers judged by LookupTrace.tla",
            "Exhaustive for small prefix spaces in the design; the real code is run for all --toc-bits 15 to 25 on "
            "embedded and random databases."),
    "P09": ("c_toccache", MC,
            "TLA+ model of histories of database update, search and crash or failure while the ToC is saved, checked "
            "with TLC; generated histories replayed with hibp-search --toc under a fault injecting library (kill, "
            "ENOSPC, short write at every call), answers judged by TocCacheTrace.tla",
            "Crash points are those between and inside system calls of the process; power loss reordering of the "
            "disk is not modelled. Staleness is decided by file times, as documented."),
    "P10": ("c_tools", MC,
            "TLA+ model of the top-n selection checked with TLC for all small inputs; generated and random databases "
            "run through hibp-topn (file and stdout), output judged by TopNTrace.tla",
            "Exhaustive for small inputs in the design and, through the generator, in the tool; sampled around the "
            "buffer sizes."),
    "P11": ("c_sort", MC, "TLA+ model of the external sort checked with TLC; TLC-enumerated inputs replayed "
            "into disksort and hibp-sort, observed results judged by a TLA+ trace specification",
            "The design is checked exhaustively for all inputs up to 4 (thorough: 5) records and all chunk "
            "sizes; each of these inputs, and random ones around all buffer sizes, is run through the real "
            "code. Trusts TLC and the recorder which maps hashes to ranks."),
    "P12": ("c_convert", MC,
            "Executable TLA+ definition of the text and binary format (Convert.tla), checked with TLC for round trips; "
            "generated and random texts and databases run through hibp-convert, every output byte judged by "
            "ConvertTrace.tla", "Exhaustive over small line alphabets in the design; tool sampled around buffer sizes, "
            "all count values at the borders, files and streams."),
    "P13": ("c_tools", MC,
            "TLA+ model of the diff cursors checked with TLC for all small pairs of databases; generated and random "
            "pairs run through hibp-diff and run_diff, hunks applied and judged by DiffTrace.tla",
            "Exhaustive for small pairs; sampled beyond the 65536 byte buffer."),
    "P14": ("c_server", MC,
            "Executable TLA+ definition of routing, percent decoding, SHA-1, MD4 and lookup (ServerTrace.tla) judges every "
            "recorded answer of hibp-server; TLA+ model of workers, buffers and connections checked with TLC",
            "All 28 combinations of databases, notation and ToC, about 100 requests each; the specification computes "
            "the password hashes itself."),
    "P15": ("c_server", MC,
            "TLA+ model of worker threads, database objects, read failures and connections checked with TLC "
            "(a shared database object is shown to violate it); generated and random conversations on many connections, "
            "with slow and failing reads and badly behaved other clients, recorded from hibp-server and judged by ServerTrace.tla",
            "The design is exhaustive for 2 workers and 2 connections; real schedules are sampled, widened by delays in "
            "the reads of the database."),
    "P16": ("c_flat", MC,
            "TLA+ model of several iterators over one buffered file checked with TLC; all generated operation histories "
            "and long random ones (with injected read failures) replayed into flat_file::database, each value judged "
            "by FlatFileTrace.tla", "Exhaustive histories up to the bound of the generator, random histories beyond."),
    "P17": ("c_cli", MC,
            "TLA+ model of a buffered writer over a failing disk checked with TLC (styles which do not look at the result "
            "are shown to violate it); every write call of convert, topn, sort, diff and download made to fail, be short, "
            "interrupted or limited in turn; all write calls and the outcome judged by WriterTrace.tla",
            "Every output operation of the sampled runs is hit by every kind of fault; sizes are sampled around the "
            "buffers. A failing close() is not injected: data is handed to the kernel by then."),
    "P18": ("c_cli", MC,
            "TLA+ model of the phases of a command (options, input, output, opening, work) checked with TLC; the "
            "generated combinations of options and file states run with the real tools, what happened to the files "
            "judged by CliTrace.tla", "All combinations in the model; a large sample of them (thorough: all) is run."),
    "P19": ("c_rec", MC,
            "Executable TLA+ definition of UTF-8 decoding, UTF-16LE and MD4 (Ntlm.tla) evaluated by TLC on the recorded "
            "inputs and compared with hibp::ntlm() and with MD4 fed in pieces (Md4Buf.tla models the block buffer)",
            "MD4 is computed by the specification itself for each sampled password; lengths around all padding "
            "borders, all planes, ill-formed sequences."),
    "P20": ("c_tools", MC,
            "TLA+ model of the scan for duplicates checked with TLC; generated and random databases run through "
            "hibp-dupes for all bit widths, output judged by DupesTrace.tla",
            "Exhaustive for small databases in the design; tool sampled."),
    "P21": ("c_cli", MC,
            "TLA+ model of opening and reading a database of any size in bytes checked with TLC (styles without a check "
            "are shown to violate it); all remainders for all tools and formats run with the real tools, judged by "
            "ReaderTrace.tla", "All remainders of a record size are run, sizes sampled around buffers and above 4 GiB "
            "(sparse file)."),
    "P22": ("c_convert", MC,
            "Executable TLA+ grammar of a record line (Convert.tla); generated and random malformed lines run through "
            "hibp-convert and hibp-download, status and records judged by ConvertTrace.tla",
            "Line alphabet exhaustive for short lines in the design, sampled in the tools."),
    "P23": ("c_rec", MC,
            "TLA+ definition of the lexicographic order checked with TLC to be a total order (Order.tla); generated and "
            "random pairs compared by the real array and record comparisons (scalar, AVX2, AVX512 builds), judged by "
            "OrderTrace.tla", "All arrays over a small alphabet and all lengths up to 70, random pairs beyond."),
    "P24": ("c_cost", MC,
            "TLA+ model of records passing through buffers, chunks and kept records (Resources.tla) checked with TLC (designs "
            "which keep everything are shown to violate it); peak memory of all tools on small and big databases judged "
            "by ResourcesTrace.tla",
            "Memory is measured from outside for databases of 60 MB (thorough: 290 MB) against tiny ones; bounds have a "
            "slack of 8 MB. hibp-download is judged with a server slower than its writer."),
    "P25": ("c_cost", MC,
            "TLA+ model of the buffered accesses of scans and binary searches (Resources.tla) checked with TLC (designs which "
            "scan for a lookup or go back are shown to violate it); every read() of the tools on a database counted and "
            "judged by ResourcesTrace.tla",
            "Exhaustive for small databases, buffers and chapters in the design; tools measured on databases of up to "
            "300000 (thorough: 3 million) records with even and uneven prefixes."),
    "P26": ("c_pipe", MC,
            "TLA+ specification of a user's files and of every tool as an operation on them (Pipeline.tla), laws of "
            "composition checked with TLC; generated histories of work run with the real tools (download, crash, resume, "
            "convert, sort, topn, diff, dupes, search, server), every step judged by PipelineTrace.tla",
            "Laws are exhaustive for histories of 4 steps (thorough: 5) over 2 small files; real histories of 13 steps are "
            "sampled from the specification."),
    "P27": ("c_local", MC,
            "TLA+ model of servers, addresses and ports, and of what becomes known to whom (Local.tla), checked with TLC; "
            "generated histories of several real servers starting, waiting, conflicting and stopping, lookups, and downloads "
            "from a host with a false certificate, with all connections and sockets recorded, judged by LocalTrace.tla",
            "Exhaustive for two servers and 4 steps (thorough: 5) in the design; the real servers are run for sampled "
            "histories of 9 steps of three servers. A query in memory is not looked for, only in files and output."),
}
