# p(...) lines for newer fix commits, and KNOWN = the known: lines
KNOWN = [
    "known: property=C19 scenario=byte_sort match=multi-searcher: * with sort 6 :: sorting by term order (byte) through a multi-searcher compares the term numbers of different indexes with each other",
    "known: property=C20 scenario=fuzzy_reread match=a~ :: a fuzzy clause of default similarity followed by a word (a~ OR b) prints as a~ b, which reads back as the fuzzy query a~b",
    "known: property=C20 scenario=clean_backslash match=cleaning changes the meaning :: cleaning a phrase with an escaped backslash drops the escape (pinned by an existing test)",
]
p("C13", "skip interval of 1 miscounted", "seeking a missing term over several", "seek_te on a segment's TermPosEnum")
p("C14", "skipping in a conjunction", "constant score query used a second", "filtered query whose query has no", "deleted since its filter was cached", "only prohibited clauses")
p("C22", "scanning a bit vector from beyond")
p("C15", "sloppy phrase repeating a word", "first position is not 0 missed", "span-or query inside a span-near", "span multi-term and span prefix", "skipping in a span query lost", "replaced the clauses of a span query", "refused by a span-or or span-near", "span-not query over two different")
p("C16", "typed range matched terms that are no", "starting with a very long word")
p("C17", "rendering an explanation as HTML", "left out of the coord factor", "span query on a field without norms", "tiny positive norm", "were explained by a score", "boost of a filtered query was ignored", "changed the boost of the clause", "boosts of wildcard, fuzzy and range", "query without terms wrote out of bounds", "explanation of an empty boolean", "values that are not numbers")
p("C18", "near the largest integer overflowed when paging", "printing hits used freed memory", "unknown field of automatic type", "left the reader locked for later sorts", "values that are no numbers an undefined place")
p("C19", "left uninitialized", "comparing a filtered query or using", "rewritten by a multi-searcher matched", "made by a multi-searcher ignored")
p("C20", "slop that is no number", "invalid range in a query", "downcased for untokenized fields", "tokenized by the first field", "long words in a query used", "dropped the escapes within phrases", "alternative without a word before", "same terms in another order were not equal")
p("C21", "cut the last character of a URL", "did not see any non-ASCII letter", "doubled the character after an invalid byte", "scanner ran past its buffers", "overran its buffer on long words", "empty parts, stale parts after a reset", "grows when lower-cased lost its")
p("C22", "empty string literal was taken for a deleted", "with integer keys crashed", "removing an array element read", "inverted bit vector corrupted", "bv_recount read beyond", "in place used the result", "long mapping pattern overran", "not compiled yet used a missing", "mulmap_dynamic_map overran")
p("C26", "FINALLY block was skipped", "within a finally block ran that block again", "replaced the message of a pending", "shared one message buffer")
p("C27", "index_add_array refused", "several key fields leaked", "index_delete_term used an outdated", "index_delete_term did not flush", "out of range left the reader locked", "left it locked forever", "not unique leaked the query", "empty index claimed to be the latest")
p("C24", "compacting an empty match vector", "match longer than the excerpt", "total excerpt length overflowed", "match vectors lacked the matches", "highlighting a phrase without words", "highlighting a phrase changed", "highlighting a span query read", "highlighting a multi-term span", "an excerpt near the end of the field", "which a merged excerpt grew over")
p("C28", "Integer#to_s_pad padded", "String#to_date_lex moved", "String#to_date_time_lex failed")
p("C25", "Index#to_s showed neither", "went on using a closed searcher", "Index#update by id failed", "Index#batch_update accepted", "deleting a batch with an id")
p("C23", "threads took the same hash table", "threads corrupted the symbol table", "threads miscounted the streams", "threads reading one file moved", "threads reading files of one compound", "threads used a term index which", "threads looked terms up in the field", "threads copied the stored fields", "term index which could not be read was used", "threads corrupted the file table", "threads miscounted the users of a store")
p("C23", "threads allocated the norms of a field without norms twice", "threads corrupted the caches of filters", "a thread seeking in a file moved")
