#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as one readable table here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m) for n, m in state],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Stream round-trip: what is written is what is read",
 "Any sequence of typed writes (single bytes, blocks, fixed 32/64-bit integers, variable-length integers, strings) and seeks on an output file is read back value for value and byte for byte, from the in-memory store and from the file-system store alike, from the start, after seeking to any offset, and through any number of clones of the input used in any order. The reported length and positions are exact, and reading past the end raises an EOF error instead of returning invented data.",
 ["histories", "inputs"], "every sequence of write/seek operations up to a depth with block sizes straddling the internal buffer size, every boundary integer, every interleaving of reads on an input and its clone",
 "tests/test_store.c writes one fixed sequence per type; buffer-boundary and clone interleavings are never combined",
 ["c/src/store.c", "c/src/fs_store.c", "c/src/ram_store.c"],
 [("buffered streams", "c/src/store.c"), ("RAM buffers", "c/src/ram_store.c"), ("fd streams", "c/src/fs_store.c")],
 ["os_write_*/is_read_*, is_seek/os_seek, is_length, is_pos/os_pos, is_clone"])

prop("C02", "A store behaves as a map from file names to bytes",
 "Under any sequence of create, overwrite, remove, rename, touch, exists, length, count, list, clear and close/reopen operations on index files a store behaves as a plain map from names to byte strings: every operation reports and changes exactly what the map would, the in-memory and the file-system store give the same answers, and a RAM copy of a store has the same content. An input stream that is already open keeps delivering the bytes it was opened on even when its file is removed or renamed or the store is cleared. (The length of a missing file, and overwriting a file while it is being read, are unspecified.)",
 ["histories"], "all operation sequences up to a depth over a small set of file names, both store kinds",
 "unit tests run one scripted sequence per store",
 ["c/src/store.c", "c/src/fs_store.c", "c/src/ram_store.c"],
 [("directory operations", "c/src/fs_store.c"), ("ref-counted RAM files", "c/src/ram_store.c")],
 ["store->exists/remove/rename/count/each/length/clear/clear_all/touch, open_ram_store_and_copy"])

prop("C03", "Compound files are transparent",
 "Packing any set of files into a compound file and opening it yields exactly the same names, lengths and bytes as the originals, for any file sizes including empty ones, any read/seek order, and any interleaving of several open sub-streams and clones. A sub-stream never reads into its neighbour: reading past its end is an error.",
 ["histories", "inputs"], "all small sets of file sizes around the buffer size and all interleavings of reads and seeks over two sub-streams up to a depth",
 "tests pack three small files and read each one sequentially",
 ["c/src/compound_io.c", "c/src/store.c"],
 [("compound reader/writer", "c/src/compound_io.c")], ["open_cw/cw_add_file/cw_close, open_cmpd_store, open_input"])

prop("C04", "Committed index content equals the history that produced it",
 "After any history of adding documents, deleting by term or by document number, updating, committing, optimizing and closing/reopening writers and readers, a newly opened reader shows exactly the documents that were added and not deleted up to the last commit (added documents may become visible earlier, in order, as automatic flushes commit them), in insertion order, with exactly their stored fields, terms, frequencies, positions and norms, and no others. This holds whatever the buffering, merging, compound-file and posting-layout settings and whichever store is used: these settings never change what is visible.",
 ["histories", "configurations"], "every operation sequence up to a depth over a small document alphabet, for a grid of configurations, against a reference model of the index",
 "tests use a few fixed corpora and default configurations; interaction of merges, deletions and commits is combinatorial",
 ["c/src/index.c"],
 [("document writer and flushing", "c/src/index.c dw_*/iw_*"), ("segment merging", "c/src/index.c sm_*"), ("deletions", "c/src/index.c sr_delete_doc_i, iw_delete_term")],
 ["iw_add_doc, iw_delete_term(s), iw_commit, iw_optimize, iw_close, ir_open, ir_delete_doc, ir_commit, get_doc, terms, term_docs, term_positions, get_norms"])

prop("C05", "Every document shape is indexed exactly as its field options say",
 "For every document (any number of fields, repeated and empty fields, multiple values, empty values, long and multi-byte values) and every field option combination (stored, compressed, untokenized, unindexed, norms omitted, term vectors with or without positions and offsets, field and document boosts, field-length limit) the index returns the stored values byte for byte, indexes exactly the tokens the analyzer produces at their positions, returns term vectors whose terms, frequencies, positions and offsets match the tokens, and encodes norms from the boosts and the length. Merging several such documents changes none of it.",
 ["inputs", "configurations"], "the product of document shapes and field options within bounds, before and after merging",
 "tests sample a handful of field-option combinations",
 ["c/src/index.c", "c/src/document.c", "c/src/term_vectors.c"],
 [("fields reader/writer", "c/src/index.c fr_*/fw_*"), ("postings inversion", "c/src/index.c dw_add_doc"), ("compressed fields", "c/src/index.c *_zipped_bytes")],
 ["ir->get_doc, ir->get_lazy_doc, ir->term_vector(s), ir->get_norms"])

prop("C06", "Merging in whole indexes preserves their live documents",
 "Adding any list of existing indexes (with any deletions, field sets and segment counts, fields of one name having the same options) to an index makes it contain its own live documents followed by the live documents of each source in order, with the same stored fields, terms, positions, term vectors and norms. Deleted documents never reappear and the sources are unchanged.",
 ["histories", "configurations"], "all pairs of small indexes (document choices x deletions x field orders x segmentation) and target states within bounds",
 "one test adds three readers with identical fields",
 ["c/src/index.c"], [("iw_add_readers / segment merge with field maps", "c/src/index.c")], ["iw_add_readers, Ruby IndexWriter#add_readers / Index#add_indexes"])

prop("C07", "Readers are immutable snapshots and know when they are stale",
 "An open reader keeps returning exactly the content it was opened on (plus its own deletions and norm changes) however many times the index is modified, merged, optimized or committed afterwards. It reports itself as the latest version exactly when no later commit has happened, and a stale reader is refused when it tries to modify the index.",
 ["histories"], "all interleavings up to a depth of reader opens, reader modifications and writer operations",
 "tests open a reader before and after one change",
 ["c/src/index.c"], [("segment infos version / is_latest", "c/src/index.c"), ("copy-on-write deletions and norms", "c/src/index.c sr_*"), ("stale check", "c/src/index.c ir_acquire_write_lock")],
 ["ir_open, ir_is_latest, ir_delete_doc, ir_undelete_all, ir_set_norm, ir_commit"])

prop("C08", "A crash at any point leaves a usable, committed index",
 "If the process dies at any point of any history of operations on an existing index (before or after any file-system call, or part-way through writing a file; completed writes survive), the directory still opens and shows exactly the content of the last completed commit or of the commit in progress, never a mixture, a loss or an error. After clearing stale locks, a new writer can continue from that state, and further commits behave normally.",
 ["crash_points", "histories"], "every file-system call of each history x every torn-write length class x recovery and continued use",
 "no test kills the process; the number of crash points per history is in the hundreds",
 ["c/src/index.c", "c/src/fs_store.c", "c/src/compound_io.c"],
 [("segments_N commit protocol", "c/src/index.c sis_write/sis_find_segments_file"), ("file deleter", "c/src/index.c deleter_*")], ["ir_open, iw_open after a cut of the syscall trace"])

prop("C09", "An I/O error is reported and never costs committed data",
 "If a file-system call fails during any index operation (any single call, or every write from some point on because the disk is full), the operation raises an error to its caller, or succeeds completely; it never reports success while losing data. Whatever had been committed before is still readable afterwards, and once the fault is gone, the objects of the failed operation are abandoned and stale locks cleared, the index can be opened and modified normally through the same store.",
 ["fault_sequences", "histories"], "every single failing call site in each history, for each error kind",
 "tests never inject I/O errors",
 ["c/src/fs_store.c", "c/src/store.c", "c/src/index.c", "c/src/except.c"],
 [("IO_ERROR raising", "c/src/fs_store.c"), ("rollback in commit", "c/src/index.c")], ["exceptions raised by iw_*/ir_* calls and reopened content"])

prop("C10", "At most one modifier at a time; locks are exclusive and recoverable",
 "At any time at most one writer or modifying reader holds an index: while one is active every other attempt to open a writer or to modify through another reader raises a lock error, changes nothing and leaves the holder's lock in force, and the lock becomes available again as soon as the holder closes or commits. A failed attempt leaves the object that tried usable and no lock is ever released by anyone but its holder or an explicit clear.",
 ["histories", "schedules"], "all interleavings of open/modify/commit/close over two or three writers and readers up to a depth, on both stores",
 "tests check one conflict and give up",
 ["c/src/index.c", "c/src/fs_store.c", "c/src/ram_store.c", "c/src/store.c"],
 [("write lock", "c/src/index.c iw_open, ir_acquire_write_lock"), ("lock files", "c/src/fs_store.c fs_lock_*"), ("RAM locks", "c/src/ram_store.c ram_lock_*")],
 ["iw_open, ir_delete_doc, lock->obtain/release/is_locked"])

prop("C11", "Index files are reclaimed exactly when nothing needs them",
 "After any history, once writers are closed and readers are released and a writer has been opened and closed again, the directory contains only the files of the current commit: nothing is leaked. No operation ever removes a file that the current commit or an open reader's snapshot still needs, nor files in a file-system directory that do not belong to the index.",
 ["histories", "configurations"], "every operation history up to a depth, checking the file set after every step",
 "tests check file lists for one or two scenarios",
 ["c/src/index.c"], [("deleter", "c/src/index.c deleter_*"), ("index file naming", "c/src/index.c file_name_filter_*")], ["store file listing vs. files named by the segments file"])

prop("C12", "Term dictionary enumeration is complete, ordered and seekable",
 "For every index, enumerating a field's terms yields each distinct live-or-deleted posting term exactly once in ascending byte order with its exact document frequency, whatever the number of segments. Skipping to any string (existing, missing, before the first, after the last, a prefix, forwards or backwards) positions the enumeration at the first term not smaller than it, and continuing from there yields the remaining terms.",
 ["inputs", "configurations", "histories"], "all term sets over a small alphabet x all seek targets x all next/skip sequences up to a depth x dictionary index intervals x segmentations",
 "tests seek a few terms in one corpus with the default interval of 128",
 ["c/src/index.c"], [("segment term enum and index", "c/src/index.c ste_*/sti_*"), ("multi-segment enum", "c/src/index.c mte_*")], ["ir_terms, ir_terms_from, te->next, te->skip_to, te->doc_freq, ir_doc_freq"])

prop("C13", "Posting enumeration agrees under next, read, skip and seek",
 "For every posting list, any mixture of next, bulk read, skip-to and re-seek visits exactly the live documents containing the term in increasing order with their exact frequencies and positions; skipping to a target lands on the first live document after the current one that is not before the target. This holds for every skip layout, segmentation and set of deleted documents, and for positions left partly unread.",
 ["inputs", "configurations", "histories"], "all small posting lists x deletion sets x all sequences of enumeration operations up to a depth x skip intervals x segmentations",
 "tests walk one posting list with default skip interval",
 ["c/src/index.c"], [("stde/stpe", "c/src/index.c"), ("mtde multi-segment", "c/src/index.c"), ("skip list writer", "c/src/index.c skip_buf_*")], ["ir_term_docs_for, ir_term_positions_for, tde->next/read/skip_to/seek/seek_te/next_position"])

prop("C14", "Boolean retrieval returns exactly the documents that satisfy the query",
 "For every index and every combination (nested up to a depth) of term, boolean (required, optional, prohibited), constant-score, filtered and match-all queries, the set of documents returned is exactly the set of live documents satisfying the query's logical meaning, each once. The scored search, the per-hit callback search, the unscored scan from any offset and skipping inside nested clauses all agree on that set, also after documents are deleted. Searching leaves the query unchanged: running it again gives the same answer.",
 ["inputs", "programs"], "all small corpora x all query trees up to a size x access paths",
 "tests run a fixed list of queries on one corpus",
 ["c/src/q_boolean.c", "c/src/q_term.c", "c/src/q_const_score.c", "c/src/q_filtered_query.c", "c/src/q_match_all.c", "c/src/search.c"],
 [("boolean scorers", "c/src/q_boolean.c")], ["searcher->search, search_each, search_unscored"])

prop("C15", "Phrase and span queries match exactly the right positions",
 "An exact phrase (with gaps, alternatives and repeated words) matches a live document exactly when the words occur at the required relative positions, and its frequency is the number of such occurrences; a sloppy phrase matches only when all words occur within the slop window, and always then if its words differ. Span term, multi-term, prefix, first, near (ordered and unordered, over clauses of equal length), or, and not queries match exactly the documents that contain spans satisfying their definition. Clauses of another field or that are no span queries are refused.",
 ["inputs", "programs"], "all short token sequences over a small alphabet x all small phrase/span queries",
 "tests use one hand-written corpus",
 ["c/src/q_phrase.c", "c/src/q_span.c", "c/src/index.c"], [("phrase scorers", "c/src/q_phrase.c"), ("span enums", "c/src/q_span.c"), ("multiple-term positions", "c/src/index.c mtdpe_*")], ["searcher->search, spanq_get_spans"])

prop("C16", "Prefix, wildcard, fuzzy and range matching follow their definitions",
 "A prefix, wildcard, fuzzy, string-range or typed (numeric) range query, and the equivalent filter, matches exactly the live documents having at least one term that satisfies the definition: begins with the prefix, matches the * and ? pattern over its whole length, is similar enough by edit distance with the required prefix, or lies between the bounds with each bound included or excluded as requested. Query and filter forms agree, and a limit on the number of terms keeps the best ones.",
 ["inputs", "configurations"], "all patterns/bounds up to a length over a small alphabet x all terms up to a length",
 "tests try a few patterns",
 ["c/src/q_wildcard.c", "c/src/q_prefix.c", "c/src/q_fuzzy.c", "c/src/q_range.c", "c/src/q_multi_term.c"],
 [("wildcard matcher", "c/src/q_wildcard.c wc_match"), ("fuzzy distance", "c/src/q_fuzzy.c"), ("range scan", "c/src/q_range.c")], ["searcher->search, filt_get_bv"])

prop("C17", "Scores follow the documented formula and explanations agree with them",
 "The score of every hit equals the value obtained from the similarity formula (term frequency, inverse document frequency, boosts, query norm, coordination, field norm) for that document and query, does not depend on how the scorer was advanced to the document nor on other hits, and equals the value of the explanation for that document; documents that do not match have explanation value zero. Norm bytes decode monotonically and encoding a decoded norm gives the byte back.",
 ["inputs", "programs"], "all small corpora x query trees x all ways of advancing; all 256 norm bytes and all float classes",
 "tests compare a few scores",
 ["c/src/similarity.c", "c/src/q_term.c", "c/src/q_boolean.c", "c/src/q_phrase.c", "c/src/q_multi_term.c", "c/src/search.c", "c/src/helper.c"],
 [("weights and scorers", "c/src/q_*.c"), ("similarity", "c/src/similarity.c")], ["TopDocs scores, searcher_explain, sim_encode_norm/sim_decode_norm"])

prop("C18", "Ranking, sorting, paging and filtering are exact",
 "The hits returned for any offset and limit are exactly that slice of the complete matching list ordered by the requested criteria (score by default, or any sequence of field, score and document-order keys, ascending or descending; automatic type detection looks at the smallest term, values that are missing or no numbers count as 0 in numeric sorts, missing texts come last), ties broken by document order. Total hits counts every match, filters and post-filters remove exactly the documents they reject, the maximum score is that of the best hit, and out-of-range paging arguments are refused.",
 ["inputs", "configurations"], "all value assignments to a few documents x sort specifications x offsets and limits x filters",
 "tests sort one ten-document corpus",
 ["c/src/sort.c", "c/src/search.c", "c/src/field_index.c", "c/src/filter.c", "c/src/priorityqueue.c"],
 [("hit queue", "c/src/search.c hit_pq_*"), ("field sort queue", "c/src/sort.c"), ("field index", "c/src/field_index.c")], ["searcher->search TopDocs"])

prop("C19", "Searching several indexes together equals searching their concatenation",
 "For any split of a document collection into several indexes (with differing field orders, deletions and empty parts), reading them through a multi-reader or searching them through a multi-searcher gives the same documents, terms, postings, hits, scores (up to rounding), order, explanations and term vectors as one index holding all the documents in order. Sort fields must exist in every part.",
 ["inputs", "configurations"], "all small collections x all splits into up to three parts x the query and reader operations",
 "tests use one split of one corpus",
 ["c/src/index.c", "c/src/search.c", "c/src/sort.c"], [("multi reader", "c/src/index.c mr_*"), ("multi searcher", "c/src/search.c msea_*")], ["mr_open, msea_new vs. isea over one index"])

prop("C20", "The query parser is total, faithful and re-readable",
 "Parsing any byte string either returns a query or raises a parse error (and never fails when error handling is on), leaves the parser usable and returns the same result when repeated. For well-formed input the query has the meaning given by the query language (required, prohibited, optional, and/or, grouping, fields, phrases with gaps and alternatives, slop, ranges, wildcards, fuzzy, boosts). Printing a query made of plain words and parsing it again (clauses optional by default) gives a query of the same meaning.",
 ["inputs"], "all strings up to a length over the operator alphabet and all syntax trees up to a size",
 "tests parse a list of about a hundred strings",
 ["c/src/q_parser.c", "c/src/q_parser.y", "c/src/q_boolean.c", "c/src/q_phrase.c"], [("lexer/grammar/actions", "c/src/q_parser.y (generated into q_parser.c)")], ["qp_parse, q->to_s, q_eq"])

prop("C21", "Tokens are true slices of the text in order",
 "For every text, every tokenizer and analyzer terminates and yields tokens whose start and end offsets lie inside the text, are non-decreasing, and delimit the source of the token (the text of an over-long token is cut, its offsets are not). Whitespace, letter, regular-expression and lower-casing variants yield exactly the tokens of their definition, the standard tokenizer the longest matches of its grammar, stop words are removed and reflected in the position increments, and hyphen, stem and mapping filters change exactly what they define. Token streams can be reset, cloned and reused without affecting each other.",
 ["inputs"], "all strings up to a length over an alphabet of character classes (letters, digits, punctuation, multi-byte, invalid bytes) x all tokenizers and filters",
 "tests tokenize a few sentences",
 ["c/src/analysis.c", "c/src/scanner.c", "c/src/scanner_mb.c", "c/src/scanner_utf8.c", "c/src/stopwords.c", "c/src/multimapper.c"], [("tokenizers/filters", "c/src/analysis.c"), ("string mapper", "c/src/multimapper.c")], ["a_get_ts / ts->next tokens"])

prop("C22", "Containers behave as their abstract types under every history",
 "Hash tables, hash sets, dynamic arrays, bit vectors, priority queues, memory pools and the multi-pattern string mapper behave exactly like a map, an insertion-ordered set, a sequence, a (possibly inverted) set of integers, a bounded ordered multiset, non-overlapping memory blocks and replacement of the earliest-ending (then longest) match, under every sequence of their operations, including growth, deletion, collisions and negative or out-of-range indices.",
 ["histories", "inputs"], "all operation sequences up to a depth with colliding keys and boundary sizes",
 "tests run one sequence per container",
 ["c/src/hash.c", "c/src/hashset.c", "c/src/array.c", "c/src/bitvector.c", "c/include/bitvector.h", "c/src/priorityqueue.c", "c/src/mempool.c", "c/src/multimapper.c"],
 [("containers", "c/src")], ["h_*, hs_*, ary_*, bv_*, pq_*, mp_*, mulmap_*"])

prop("C23", "Objects shared between threads behave as if used one at a time",
 "When several threads use one index reader, searcher, writer, index object, query parser or store concurrently (each with query, sort and document objects of its own), under every thread interleaving each call returns the same result as in some sequential order of the calls: no document, term or hit is lost, duplicated or mixed up between threads, nothing crashes, and no thread waits forever. A reader opened while another thread commits sees either the old or the new commit. Threads that share no object do not influence each other at all.",
 ["schedules"], "all interleavings with up to a bounded number of preemptions of small multi-thread programs on shared objects",
 "the threading test is a random stress test, itself flaky",
 ["c/src/index.c", "c/src/store.c", "c/src/fs_store.c", "c/src/ram_store.c", "c/src/ind.c", "c/src/except.c", "c/include/threading.h"],
 [("mutexes and thread-local buckets", "c/src/index.c"), ("store locks", "c/src/store.c")], ["results returned to each thread"])

prop("C24", "Highlighting marks exactly the matches and keeps the text",
 "For every document text and query, the highlighted output with the inserted tags removed is the original field text (or ordered excerpts of it, cut at words and separated by the ellipsis), every tag pair is properly closed and non-overlapping, and exactly the words or phrases that make the query match are enclosed (overlapping matches share one tag pair). The excerpts respect the requested number and length and show the places with most matches; the whole field is shown if it fits, and nothing if nothing matches or the field lacks stored text or term vectors with positions and offsets.",
 ["inputs", "configurations"], "all short token texts x queries x excerpt lengths and counts",
 "tests check a handful of strings",
 ["c/src/search.c", "c/src/q_phrase.c", "c/src/q_span.c", "c/src/q_term.c", "c/src/q_multi_term.c"], [("excerpts and match vectors", "c/src/search.c")], ["searcher_highlight, searcher_get_match_vector"])

prop("C25", "The Ruby index object behaves like a keyed document collection",
 "Through the Ruby Index class, any sequence of adding, updating, deleting (by id, number, query, batch), flushing, optimizing, merging and reopening behaves like a collection of documents in which a unique key holds at most the last document added for it (merging in whole indexes does not apply the key). Reads and searches always see every preceding operation on the same object, size and iteration list exactly the live documents, and another object on the same directory sees everything after a flush. Refused calls change nothing.",
 ["histories", "configurations"], "all operation sequences up to a depth over a few documents, with and without key and auto-flush, RAM and file-system directories",
 "ruby tests run scripted sequences",
 ["ruby/lib/ferret/index.rb", "ruby/ext/r_index.c", "ruby/ext/r_search.c", "ruby/ext/r_store.c", "c/src/index.c"], [("Index", "ruby/lib/ferret/index.rb")], ["Ferret::Index::Index methods"])

prop("C26", "Errors unwind cleanly through every nesting of handlers",
 "A raised error reaches exactly the innermost enclosing handler for it, every finally block on the way runs exactly once (also when an error is raised inside one), the error's type and message are those raised, handlers and state of outer blocks are intact afterwards, and concurrent threads' errors do not mix.",
 ["programs", "schedules"], "all nestings of try/catch/finally up to a depth with a raise, re-raise or none at every place",
 "tests try a few nestings",
 ["c/src/except.c", "c/include/except.h"], [("setjmp stack", "c/src/except.c")], ["TRY/XCATCHALL/XFINALLY behaviour"])

prop("C27", "The C index convenience object is consistent with its history",
 "Through the all-in-one C index object, any sequence of adding documents and strings, deleting by number, id, term or query, flushing, optimizing, searching by query string and reading back behaves like a collection of documents: every read, search, size or lookup sees all preceding operations, and closing or flushing makes everything visible to other readers. A declared key (of one or several fields, all present and single words) keeps at most one document per key value; a key found several times is refused.",
 ["histories", "configurations"], "all operation sequences up to a depth, with and without key and auto-flush, both stores",
 "one short scripted test exists",
 ["c/src/ind.c", "c/src/index.c"], [("Index", "c/src/ind.c")], ["index_* functions"])

prop("C28", "Order-preserving string forms of numbers and dates",
 "For all integers in range, the lexicographic string forms compare as strings in the same order as the numbers and parse back to the same number, and so do the zero-padded forms of non-negative integers within the width. For all dates and times of years 1 to 9999 and all precisions the lexicographic form is order-preserving and reads back as the value truncated to the precision, so that range queries over these forms return exactly the values in the range.",
 ["inputs"], "all pairs of boundary integers and dates and all precisions",
 "tests compare a few values",
 ["ruby/lib/ferret/number_tools.rb"], [("Integer#to_s_lex, #to_s_pad, Date/Time#to_s_lex", "ruby/lib/ferret/number_tools.rb")], ["string forms"])

open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write(
    "".join(json.dumps(p) + "\n" for p in P))
