"""The properties: texts (for properties.jsonl and MANIFEST.json), deciding harnesses and bounds.
`python3 lib/gen.py` rewrites properties.jsonl and MANIFEST.json from here."""
C = []
def prop(id, title, statement, over, qtext, why, files, mech, quick, bounds, thorough=None, thorough_bounds=None, max_steps=200_000_000, stubs=(), timeout=600, note=""):
    C.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, quick=quick, bounds=bounds, thorough=thorough, tb=thorough_bounds, max_steps=max_steps, stubs=list(stubs), timeout=timeout, note=note))
NA = []
def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason))

# ------------------------------------------------------------------ util::coding
prop("C01", "Integer and byte-string encodings round-trip",
 "Any sequence of fixed-width integers, varints, raw bytes and length-prefixed strings written with an encoder (into a growing vector, a buffer or a slice that is large enough) is read back unchanged, in order, by a decoder over the written bytes. The bytes written are the LevelDB format: little-endian fixed integers, minimal-length base-128 varints, varint length before a length-prefixed string. The encoder and decoder positions advance by exactly the encoded length of each item, at any starting alignment.",
 ["inputs", "programs"], "every value of every integer, every byte string and every sequence of puts, into every kind of container",
 "The unit tests encode a dozen chosen numbers; varint lengths change at 14 boundaries, sequences shift alignment, and the value space is 2^64.",
 ["src/util/coding.rs"], [("encode_fixed!/uncheck_encode_varint*/put_* macros", "src/util/coding.rs"), ("decode_fixed!/decode_varint!/get_* macros", "src/util/coding.rs")],
 ["h_coding_roundtrip1", "h_coding_roundtrip2", "h_coding_varint_len", "h_coding_create_decoder", "h_coding_big", "h_coding_long"],
 "sequences of 1 or 2 puts out of {fixed32, fixed64, varint32, varint64, raw bytes, length-prefixed slice}, every value of every integer, byte strings of 0..=2 arbitrary bytes, checked and unchecked calls, all three containers and all three decoder views, vec initially empty or holding 3 stale bytes; byte strings of 14 lengths from 126 to 2097152 with arbitrary first and last byte between arbitrary integers; one sequence of 214 puts with both sides of every varint length",
 thorough=["h_coding_roundtrip1", "h_coding_roundtrip2", "h_coding_varint_len", "h_coding_create_decoder", "h_coding_roundtrip_t", "h_coding_big", "h_coding_long"],
 thorough_bounds="quick bounds, plus sequences of 3 puts")
prop("C02", "Decoding arbitrary bytes never reads past the data",
 "A decoder over arbitrary bytes answers every request either with exactly the value the format defines at its position, advancing by exactly the encoded length, or with an error; it returns an error precisely when the data needed is not there (too few bytes, a varint cut short, a length prefix or a requested length larger than what is left, however large). It never panics, never reads outside the data and its position never passes the limit.",
 ["inputs", "programs"], "every byte string and every sequence of requests, including lengths near the maximum of the integer type",
 "The unit tests decode only what an encoder wrote; corrupt and truncated files produce every other byte string.",
 ["src/util/coding.rs"], [("get_*/skip/get_buf length checks", "src/util/coding.rs"), ("decode_varint!", "src/util/coding.rs")],
 ["h_decoding_arbitrary", "h_decoding_arbitrary2", "h_decoding_big", "h_decoding_lengths"],
 "1 request on 0..=12 arbitrary bytes, and sequences of 2 requests on 0..=7 arbitrary bytes; requests fixed32, fixed64, varint32, varint64, length-prefixed slice, get_buf(n), skip(n) with n any 64-bit value; all three decoder views; every request at each of the last 12 positions of data of 128, 300 and 17000 bytes; length prefixes of 10 sizes up to 2^32-1 against 0 to 2097152 bytes left, at three positions",
 thorough=["h_decoding_arbitrary", "h_decoding_arbitrary2", "h_decoding_arbitrary_t", "h_decoding_big", "h_decoding_lengths"], thorough_bounds="quick bounds, plus sequences of 3 requests on 0..=7 bytes")
prop("C03", "Encoding into a fixed-size target never writes past it",
 "Writing an item into a buffer or slice of fixed size succeeds exactly when its encoding fits into what is left; otherwise an error is returned. Bytes before the position and after the written item keep their values, a refused item does not move the position (nor change anything, except that the length prefix of a refused length-prefixed string may have been written), and no byte outside the target is touched.",
 ["inputs"], "every target size, every position, every item and value",
 "The unit tests never fill a target to its end; the failing cases are the exact boundary sizes for each encoded length.",
 ["src/util/coding.rs"], [("bounds checks of put_*", "src/util/coding.rs")],
 ["h_coding_bounds", "h_coding_bounds_big"], "targets of 0..=11 bytes, every earlier fill level, one put of any kind with any value (byte strings 0..=6 bytes); targets of 128 to 65537 bytes with every item 0..=10 bytes before the end, and strings that leave -6..=4 bytes")
# ------------------------------------------------------------------ util::slice
prop("C04", "Byte slices behave as byte strings, ordered lexicographically",
 "Equality, three-way comparison, prefix tests, indexing, sub-ranges, prefix removal, copies and merging of slices agree with the same operations on the byte strings they hold: bytes compare unsigned, a proper prefix sorts first, and slices built in different ways from the same bytes are equal. No operation changes a slice it only reads, and operations valid for the bytes never panic.",
 ["inputs", "programs"], "every pair of byte strings, including non-UTF-8 bytes, zero bytes and the empty string",
 "The unit tests compare a few ASCII strings.",
 ["src/util/slice.rs"], [("Slice::compare/eq/starts_with/remove_prefix/merge, Index impls", "src/util/slice.rs")],
 ["h_slice_order", "h_slice_views", "h_slice_merge", "h_slice_order_big", "h_slice_views_big", "h_slice_text"], "byte strings of 0..=5 arbitrary bytes for the order, 0..=6 for views, 0..=4 for merge; pairs that differ within 0..=1 arbitrary bytes after a common part of 16 lengths from 4 to 1000; ranges of slices of 9 lengths from 127 to 70000; text with an arbitrary character of 1 to 4 bytes, through every conversion",
 thorough=["h_slice_order", "h_slice_views", "h_slice_merge", "h_slice_order_t", "h_slice_views_t", "h_slice_merge_t", "h_slice_order_big", "h_slice_views_big", "h_slice_text"], thorough_bounds="byte strings of 0..=10 arbitrary bytes for the order, 0..=12 for views, 0..=8 for merge")
prop("C05", "The bytewise comparator orders keys, separators and successors lie between",
 "The bytewise comparator is the unsigned lexicographic total order on byte strings. The shortest separator of a and b with a < b is some key s with a <= s < b and no longer than a; for other pairs it is still >= a. The shortest successor of a key is some key >= it and no longer than it. Its name is the one LevelDB records.",
 ["inputs"], "every pair of byte strings, including prefixes of each other and runs of 0xff",
 "The unit tests use a few ASCII pairs; the interesting pairs are prefixes, differences by one and 0xff runs.",
 ["src/util/comparator.rs"], [("BytewiseComparatorImpl::find_shortest_separator/find_short_successor", "src/util/comparator.rs")],
 ["h_cmp_order", "h_cmp_separator", "h_cmp_successor", "h_cmp_big", "h_cmp_separator_big", "h_cmp_successor_big", "h_cmp_name"], "pairs of 0..=4 arbitrary bytes for the separator, triples of 0..=3 bytes for the order laws, keys of 0..=8 bytes for the successor; keys with 0..=2 arbitrary bytes after a common part of up to 1000 (separator, and runs of 0xff for the successor: 300) bytes",
 thorough=["h_cmp_order_t", "h_cmp_separator_t", "h_cmp_successor_t", "h_cmp_big", "h_cmp_separator_big", "h_cmp_successor_big", "h_cmp_name"], thorough_bounds="separator: 0..=8 bytes, order: triples of 0..=5 bytes, successor: 0..=20 bytes")
# ------------------------------------------------------------------ util::crc, hash, bloom
prop("C06", "CRC is CRC-32C, at any alignment, length and split",
 "The checksum of a byte string is its CRC-32C (Castagnoli, reflected, initial and final complement), whatever the alignment of the data in memory and whatever its length. Extending the checksum of A with B is the checksum of A followed by B, for every split, and every view of the same bytes (string, slice, vector, Slice) has the same checksum.",
 ["inputs"], "every byte string, every alignment and every split",
 "The unit tests check seven known vectors and one split, all at the alignment the allocator happens to give; the implementation steps 16/4/1 bytes after aligning.",
 ["src/util/crc.rs"], [("CRC::extend, AsCrc", "src/util/crc.rs")],
 ["h_crc_value", "h_crc_compose", "h_crc_views", "h_crc_big"], "lengths 0..=48 at each alignment mod 8 against a bit-at-a-time reference, all bytes symbolic; splits of 0..=33 bytes at each alignment with any starting checksum; views of 0..=5 bytes; 11 lengths from 127 to 65541 at each alignment with arbitrary last bytes, split at three places",
 thorough=["h_crc_value_t", "h_crc_compose_t", "h_crc_views", "h_crc_big"], thorough_bounds="lengths 0..=200, splits of 0..=64 bytes",
 note="XOR networks are decided by an exact GF(2) normal form of the engine (see DESIGN.md), the remaining queries by z3.")
prop("C07", "CRC masking is a bijection with the LevelDB constants",
 "Masking a checksum rotates it right by 15 bits and adds 0xa282ead8; unmasking inverts it exactly, in both directions and for every 32-bit value, so that masked checksums are distinct exactly when the checksums are.",
 ["inputs"], "all 2^32 checksums", "The unit test masks one value.",
 ["src/util/crc.rs"], [("CRC::mask/unmask", "src/util/crc.rs")], ["h_crc_mask"], "none: all 2^32 values, all pairs")
prop("C08", "The hash function is LevelDB's, independent of view and alignment",
 "The hash of a byte string with a seed is LevelDB's hash function of those bytes and that seed, whatever the memory alignment and length (including the 0..3 byte tail), and every view of the same bytes (string, vector, slice, Slice) hashes alike; without a seed the default seed is used.",
 ["inputs"], "every byte string, seed and alignment", "The unit test checks five known vectors.",
 ["src/util/hash.rs"], [("Hash::hash_code, ToHash", "src/util/hash.rs")], ["h_hash_value", "h_hash_views", "h_hash_big"], "0..=64 arbitrary bytes at each alignment mod 8 with any seed; views of 0..=5 bytes; 14 lengths from 61 to 65538 at each alignment with two seeds and arbitrary last bytes",
 thorough=["h_hash_value_t", "h_hash_views", "h_hash_big"], thorough_bounds="0..=256 bytes",
 note="32-bit products are abstracted by uninterpreted functions when both sides agree syntactically modulo congruence; other queries go to z3.")
prop("C09", "Bloom filters have no false negatives",
 "A Bloom filter created from a set of keys matches every one of those keys, for every number of keys, bits-per-key setting and capacity, and an empty key set matches nothing. Its size is capacity times bits-per-key rounded up to bytes (at least 64 bits) plus one byte recording the number of probes, which is 0.69 times bits-per-key clamped to 1..30. On arbitrary filter bytes a query answers without panicking: no match below two bytes, a match when the recorded probe count is above 30, and otherwise a match exactly when every probed bit is set.",
 ["inputs", "configurations"], "every key set, key, bits-per-key, capacity and every filter byte string",
 "The unit tests insert a few fixed keys with the default setting.",
 ["src/util/filter_policy_bloom.rs", "src/util/hash.rs"], [("create_filter/create_filter_with_len/key_may_match/bloom_hash", "src/util/filter_policy_bloom.rs")],
 ["h_bloom", "h_bloom_k", "h_bloom_arbitrary", "h_bloom_big"], "0..=2 keys of 0..=1 arbitrary bytes, bits per key 1 and 10, three capacities; probe count for every bits-per-key 0..=64; filters of 0..=4 arbitrary bytes with probe counts 0..=3 and every reserved one, keys of 0..=1 bytes; 3 to 300 fixed keys of 3 to 300 bytes with 5 settings of bits per key and 4 capacities up to 100000",
 thorough=["h_bloom", "h_bloom_k", "h_bloom_arbitrary", "h_bloom_t", "h_bloom_arbitrary_t", "h_bloom_big"], thorough_bounds="0..=3 keys of 0..=4 bytes, bits per key 0, 5, 10, 60; filters of 0..=9 bytes, probe counts up to 7")
# ------------------------------------------------------------------ table::filter_block
prop("C10", "The filter block assigns every key to its data block's filter",
 "For any sequence of block starts (non-decreasing offsets) and keys, the finished filter block consists of one filter per 2 KiB range of block offsets, each created from exactly the keys added while its range was current and empty for a range without keys, followed by the little-endian 32-bit offset of each filter, the offset of that array and the range exponent 11. Building terminates for every offset distance and every key bytes.",
 ["inputs", "histories"], "every sequence of block offsets and keys",
 "The unit tests start one block; ranges, empty filters and the trailer need several blocks at unequal distances.",
 ["src/table/filter_block.rs"], [("FilterBlockBuilder::start_block/add_key/finish/generate_filter", "src/table/filter_block.rs")],
 ["h_filter_block", "h_filter_block3", "h_filter_block_bloom", "h_filter_block_big", "h_filter_block_far", "h_filter_block_beyond", "h_filter_block_text"], "0..=2 blocks at any distance up to 5000 with 0..=2 keys of 0..=1 bytes each; 0..=3 blocks at distances up to 4100 with 0..=1 keys; one block with a real Bloom filter; 12 blocks over 200 ranges with 110 keys of 1, 90, 255 or 700 bytes, one distance arbitrary up to 9000; two blocks 128 MiB apart; the filters of blocks beyond 4 GiB; two keys given as text", max_steps=600_000_000,
 thorough=["h_filter_block", "h_filter_block3", "h_filter_block_bloom", "h_filter_block_t", "h_filter_block_big", "h_filter_block_far", "h_filter_block_beyond", "h_filter_block_text"], thorough_bounds="also 0..=3 blocks at distances up to 7000 with 0..=2 keys of 0..=2 bytes")
# ------------------------------------------------------------------ db::log
prop("C11", "What is written to the log is read back, in the LevelDB log format",
 "The records added to a log come back from a reader unchanged, complete and in order, followed by the end of the log, whatever their sizes (empty, ending at or around a 32 KiB block boundary, spanning several blocks) and even if the file accepts or delivers fewer bytes than asked. A failing write is reported, and everything accepted before it is in the file. A reader started at an offset returns exactly the records that start in the offset's block or later. The file is byte for byte the LevelDB log format: 7-byte headers with masked CRC-32C of type and data, little-endian length and fragment type, no record header crossing a block boundary, zero-filled block trailers.",
 ["inputs", "histories", "fault_sequences"], "every sequence of records, every position relative to block boundaries, every short read and write, every failing write and every start offset",
 "The unit tests write one short record; the format has a case for each distance from the block end and for first, middle and last fragments.",
 ["src/db/log_writer.rs", "src/db/log_reader.rs"], [("LogWriter::add_record/emit_physical_record", "src/db/log_writer.rs"), ("LogReader::read_next/read_buf/check_crc", "src/db/log_reader.rs")],
 ["h_log_small", "h_log_short", "h_log_boundary", "h_log_large", "h_log_write_fault", "h_log_offset", "h_log_offset_far", "h_log_huge"], "0..=3 records of 0..=3 arbitrary bytes; 1..=2 records with one short write or read of each size class; a record of 0..=5 bytes at each of the last 18 positions of a block; records of 1 to 2 blocks plus or minus 8 bytes between two small ones (up to 3 arbitrary bytes at the end, a pattern before); any of the first 13 calls failing or interrupted in a log over a block boundary; every start offset in a log of four blocks with records that start, end and continue in each; every start offset up to 2^62 in a log of any size; a record over 5 to 9 blocks",
 thorough=["h_log_small", "h_log_short", "h_log_boundary", "h_log_large", "h_log_write_fault", "h_log_offset", "h_log_offset_far", "h_log_huge", "h_log_boundary_t"], thorough_bounds="also records of 0..=8 bytes at each of the last 25 positions followed by another, with short reads and writes", max_steps=400_000_000)
prop("C12", "A torn or damaged log yields only records that were written",
 "After a crash that cuts the log at any byte, a reader returns exactly the records that are complete within the cut, then reaches the end without panicking and without returning a torn record. If any byte other than a length field is altered, every record returned is one that was written, in order, the damage is reported as an error (or is in block padding and loses nothing), and the reader reaches the end. If a length field is altered, records before it come back and whatever else comes back is a record that was written, in order, even when records hold what looks like a record. A failing read is reported and the reader goes on in step with the blocks, so that no bytes from inside a record are taken for one. On arbitrary bytes the reader never panics and always reaches the end.",
 ["inputs", "crash_points", "fault_sequences"], "every cut, every single-byte alteration, every failing read, every file content",
 "No unit test reads a torn or corrupt log.",
 ["src/db/log_reader.rs"], [("LogReader::read_next/check_crc/read_buf", "src/db/log_reader.rs")],
 ["h_log_torn", "h_log_torn_boundary", "h_log_damaged", "h_log_damaged_boundary", "h_log_arbitrary", "h_log_read_fault", "h_log_damaged_length", "h_log_torn_large"], "cuts: every byte of logs of 1..=3 records of 0..=3 arbitrary bytes, and of a record fragmented at every way over a block boundary; damage: every non-length byte of a 3-record log and of fragmented records, xored with every value; arbitrary files of 0..=16 bytes with and without checksums; one read that fails or is interrupted at every point of a three-record log that holds record-like bytes; every alteration of every length field in five-record logs, with and without fragments, that hold record-like bytes (five alterations for a fragment of a whole block); a record over four blocks cut at 60 places",
 thorough=["h_log_torn", "h_log_torn_boundary", "h_log_damaged", "h_log_damaged_boundary", "h_log_arbitrary", "h_log_read_fault", "h_log_damaged_length", "h_log_torn_large", "h_log_arbitrary_t"], thorough_bounds="also arbitrary files of 17..=22 bytes", max_steps=400_000_000,
 note="The format's checksum does not cover the length fields: that an altered length is always reported is not claimed, and the logs with altered lengths have fixed contents, as contents chosen to match a checksum by coincidence could be returned.")
# ------------------------------------------------------------------ util::arena, unsafe_slice
prop("C13", "Arena allocations are live, disjoint, sized as asked and stay put",
 "Every allocation from an arena has exactly the size asked for (including zero), lies in live memory, overlaps no other allocation and keeps its contents until the arena is dropped, whatever sequence of sizes and alignments is requested. Requests of up to a quarter block share blocks of 4096 bytes, using each to its last byte and taking a new block exactly when the rest is too small; a larger request that does not fit gets memory of its own, of its size, and leaves the block in use alone. An aligned request is aligned as asked. The reported memory usage is all the memory taken, never shrinks and covers all that was allocated.",
 ["programs", "inputs"], "every sequence of allocation sizes and alignments",
 "The unit tests make a handful of allocations of chosen sizes; the cases are the exact ends of a block and the switch to dedicated blocks.",
 ["src/util/arena.rs"], [("Arena::allocate/allocate_align/allocate_fallback/allocate_new_block", "src/util/arena.rs")],
 ["h_arena_sizes", "h_arena_edge", "h_arena_fill", "h_arena_align_first", "h_arena_align_later", "h_arena_big", "h_arena_mix"],
 "2 allocations out of 12 sizes around 0, a quarter block and a block with alignments 1, 2, 4, 8; every rest of 0..=12 bytes at the end of a block against requests of 0..=14; 24 equal allocations of every size 200..=420; alignments 1..=16 on a fresh and on a used block; up to 300 allocations of up to 70001 bytes; 14 small and large requests (up to 1 MB) in turn",
 thorough=["h_arena_sizes", "h_arena_edge", "h_arena_fill", "h_arena_align_first", "h_arena_align_later", "h_arena_sizes_t", "h_arena_big", "h_arena_mix"], thorough_bounds="also sequences of 3 allocations")
prop("C14", "Slices in an arena hold their bytes and own nothing",
 "A slice placed in an arena has the length and the bytes it was made from, through every view (bytes, string, printed form, copies of the slice, sub-slices of any range inside it), for as long as the arena lives and whatever else is placed there, by this thread or another. Copies taken out of the arena are independent of it and never free memory of the arena; every range inside a slice is accepted.",
 ["inputs", "programs", "schedules"], "every byte string, every range and every mix of slices",
 "The unit tests place one short string; ownership mistakes show only when copy and arena are dropped, and range mistakes only at the ends.",
 ["src/util/unsafe_slice.rs", "src/util/slice.rs", "src/util/arena.rs"], [("UnsafeSlice::new_with_arena/to_slice/sub_slice", "src/util/unsafe_slice.rs"), ("Slice::copy_with_arena", "src/util/slice.rs")],
 ["h_uslice", "h_uslice_str", "h_uslice_text", "h_uslice_range", "h_uslice_many", "h_uslice_big", "h_uslice_display", "h_display_big", "h_arena_threads", "h_arena_threads_two"], "two slices of 0..=4 arbitrary bytes, every sub-range; ASCII strings of 0..=3 bytes, and text with an arbitrary character of 1 to 4 bytes; every 64-bit start and length inside slices of 0..=3 bytes; three slices of sizes between 0 and 4090 with arbitrary first and last bytes; slices of 8 lengths from 127 to 140000 with any range inside; printed ASCII strings of 0..=3 bytes and of 5 lengths up to 70000; two threads placing one slice each with up to 2 preemptions, or two each with 1, at any atomic operation",
 thorough=["h_uslice", "h_uslice_str", "h_uslice_text", "h_uslice_range", "h_uslice_many", "h_uslice_t", "h_uslice_big", "h_uslice_display", "h_display_big", "h_arena_threads", "h_arena_threads_two", "h_arena_threads_t"], thorough_bounds="also two slices of 0..=7 arbitrary bytes; two slices per thread with 2 preemptions")
# ------------------------------------------------------------------ db::skip_list
prop("C15", "The skip list is a sorted set under its comparator",
 "After any sequence of insertions, for any outcome of the random node heights, the skip list holds exactly the distinct keys inserted: membership answers are exact, its length is their number, iteration yields each of them once in comparator order and then ends for good, its printed form shows them in that order, and a cursor visits them in order, is valid exactly while it is on a key and finds the first and the last key. The order used is that of the comparator it was created with, and the height stays within bounds.",
 ["inputs", "histories", "schedules"], "every sequence of keys, every outcome of the coin tosses for node heights, every comparator",
 "The unit tests insert a few keys with whatever heights the random generator gives; links at each level depend on both.",
 ["src/db/skip_list.rs"], [("SkipList::insert/find_greater_or_equal/contains", "src/db/skip_list.rs"), ("SkipListIterator", "src/db/skip_list.rs")],
 ["h_skip_two", "h_skip_three", "h_skip_four", "h_skip_desc", "h_skip_big", "h_skip_text"], "0..=2 keys of 0..=2 arbitrary bytes with every height; 0..=3 one-byte keys with heights up to 3, 0..=4 with heights up to 2; 0..=3 keys under a descending comparator; one arbitrary probe key; lists of 20 and 100 keys in ascending, descending and mixed order with two fixed mixes of heights, then one key near the start, an inner part or the end; the printed form of up to 2 one-letter keys",
 thorough=["h_skip_two", "h_skip_three", "h_skip_four", "h_skip_desc", "h_skip_three_t", "h_skip_five_t", "h_skip_desc_t", "h_skip_big", "h_skip_text"], thorough_bounds="also 3 keys with every height, 5 keys with heights up to 3, 4 keys of 0..=2 bytes in descending order", stubs=["rand: coin tosses are solver-chosen"])
# ------------------------------------------------------------------ util::cache
prop("C16", "The sharded LRU cache is a bounded map with LRU eviction and exact release",
 "For any history of inserts, lookups, erases and prunes, a lookup finds a key exactly when it is cached and returns the value last inserted; inserting evicts from the same shard, least recently used first, until the shard's charge is below its capacity, and the total charge is the sum of the cached charges. A value is released exactly when it is neither cached nor held by someone who looked it up, never earlier or later, and dropping the cache releases the rest. Colliding hashes and growth of the hash table lose or mix up nothing.",
 ["histories", "inputs"], "every history, key, charge and capacity, including hash collisions",
 "The unit tests insert, look up and erase a few keys that fall into different buckets; chains, growth, eviction order and release need specific histories.",
 ["src/util/cache.rs"], [("LRUCache::insert/look_up/erase/prune, eviction", "src/util/cache.rs"), ("HandleTable::insert/remove/resize", "src/util/cache.rs"), ("ShardLRUCache", "src/util/cache.rs")],
 ["h_cache_ops", "h_cache_chain", "h_cache_evict", "h_cache_wide", "h_cache_same", "h_cache_shards", "h_cache_grow", "h_cache_recency", "h_cache_big", "h_cache_arc", "h_cache_prune", "h_cache_capacity", "h_cache_mixed"],
 "3 operations of any kind on 3 keys of one bucket; 4 colliding entries then 2 operations; 3 of 4 keys with the same 32-bit hash then 2 operations; 2 entries then 2 operations with charges 0..=3 in shards of capacity 0..=4, and with any charges up to 2^40 in shards of 1000, 2^32 and 2^40 + 77; 8 keys over 3 shards then any operation; 12..=14 entries in one shard (growth) then any erase; 3 entries and 0..=3 lookups in any order before an eviction; values arbitrary; histories of up to 301 operations on up to 120 keys over 1, 2, 3 or all shards with growth and eviction, whose last operation is of any kind on one of 8 keys; both constructors with any capacity below 2^62 and 5 equal charges in one shard; a cache with keys in all 32 shards, filled and emptied three times; a chain of 8 whose entries move or stay in 16 patterns when the table grows",
 thorough=["h_cache_ops", "h_cache_chain", "h_cache_evict", "h_cache_wide", "h_cache_same", "h_cache_same_evict", "h_cache_shards", "h_cache_grow", "h_cache_recency", "h_cache_big", "h_cache_arc", "h_cache_prune", "h_cache_capacity", "h_cache_mixed", "h_cache_ops_t", "h_cache_chain_t", "h_cache_evict_t", "h_cache_grow_t"], thorough_bounds="also 4 operations on 4 keys, 5 colliding entries then 3 operations, 3 entries with charges then 3 operations, 11..=16 entries then 2 erases",
 note="A shard of capacity c keeps less than c charge, as the unit tests of the repository pin it.")
# ------------------------------------------------------------------ db::mem_table, db_format
prop("C17", "Memtable entries and lookup keys have the LevelDB layout",
 "A memtable entry is the varint length of key plus 8, the key, the little-endian tag of sequence number and type, the varint length of the value and the value, for every key, value, sequence below 2^56 and type; entries stay intact while others are added and memory usage covers them. A lookup key shows the same layout up to the tag as memtable key, and key plus tag as internal key. Tags order by sequence, then type.",
 ["inputs", "histories"], "every key, value, sequence number and type; lengths around varint boundaries",
 "The unit tests add one entry and never look at its bytes.",
 ["src/db/mem_table.rs", "src/db/db_format.rs"], [("MemTable::add", "src/db/mem_table.rs"), ("LookupKey::new/mem_table_key/internal_key, pack_sequence_and_type", "src/db/db_format.rs")],
 ["h_memtable_small", "h_memtable_varint", "h_memtable_value", "h_memtable_many", "h_lookup_key", "h_lookup_key_long", "h_pack", "h_memtable_big", "h_memtable_huge", "h_internal_key_length", "h_memtable_t", "h_lookup_key_t"],
 "keys and values of 0..=2 arbitrary bytes followed by an entry of 0..=1; keys of 118..=130 and of 16370..=16380, values of 125..=130 and of 16382..=16386 bytes with arbitrary first and last byte; three entries; lookup keys of 0..=3 and 117..=122 and 16372..=16380 bytes; every sequence and type; tables of 8 and 24 entries with keys up to 5000 and values up to 20000 bytes, an arbitrary one and the greatest; an entry whose key or value has up to 2097152 bytes, on both sides of each encoded length",
 max_steps=400_000_000,
 note="The table's bytes are observed through the comparator it is given.")
# ------------------------------------------------------------------ db::version_edit, file_meta_data
prop("C18", "Version edits encode every field they hold, in the manifest format",
 "The encoding of a version edit consists of exactly the fields that were set, in the order of the manifest format (comparator 1, log number 2, previous log number 9, next file 3, last sequence 4, compaction pointers 5, deleted files 6, new files 7), each with all its parts and values, whatever order they were set in; clearing forgets all but compaction pointers. Tags decode from exactly their own numbers. File records return what was put in and are equal exactly when all fields are.",
 ["inputs", "configurations"], "every subset of fields, every number and order",
 "The unit tests encode one edit without checking its bytes.",
 ["src/db/version_edit.rs", "src/db/file_meta_data.rs"], [("VersionEdit::encode_to and setters, Tag", "src/db/version_edit.rs"), ("FileMetaData", "src/db/file_meta_data.rs")],
 ["h_edit", "h_edit_lists", "h_edit_new", "h_tag", "h_file_meta", "h_edit_big", "h_edit_text", "h_file_new"], "every subset of the five scalar fields with names of 0..=3 ASCII bytes; 0..=1 entries of each list; numbers with one-byte or ten-byte varints (levels one- or five-byte); every log number in the constructors; every tag; empty internal keys (they cannot be built otherwise); edits with up to 40 entries in every list, numbers of 9 varint lengths, names up to 16384 bytes; a name with an arbitrary character of 1 to 4 bytes",
 thorough=["h_edit", "h_edit_lists", "h_edit_new", "h_tag", "h_file_meta", "h_edit_big", "h_edit_text", "h_file_new", "h_edit_t", "h_edit_lists_t"], thorough_bounds="also both together, lists of 0..=2 entries")
# ------------------------------------------------------------------ util::linked_list
prop("C19", "The linked list keeps its elements in insertion positions",
 "After any sequence of additions at the front, the back or a position, the list has the elements in the resulting order, its length counts them, and every index reads and writes exactly its element. A position up to the length is accepted for adding and an index below the length for access; everything else is refused as an invalid argument and changes nothing. Every element is released exactly once, when the list is.",
 ["histories", "inputs"], "every sequence of additions, every position and index",
 "The unit tests add three elements; links at the ends and empty lists are separate cases.",
 ["src/util/linked_list.rs"], [("LinkedList::add*/push/get/get_mut", "src/util/linked_list.rs")],
 ["h_linked", "h_linked_drop", "h_linked_big", "h_linked_huge"], "0..=3 additions of any kind and value, any 64-bit position and index; lists of 20 and 60 elements, then any value at one of the positions 0..=n+1 and accesses at five; 66000 elements, one more at four positions, accesses around 65536", thorough=["h_linked", "h_linked_drop", "h_linked_big", "h_linked_huge", "h_linked_t"], thorough_bounds="0..=5 additions")
# ------------------------------------------------------------------ util::status
prop("C20", "A status reports exactly its own code and message",
 "Every status and error code answers yes to its own predicate only, keeps its number through conversion, and unknown numbers are refused. A status keeps its message (two parts joined by a colon when both are there) and shows it after the name of its code; an ok status has no message. I/O errors become I/O statuses.",
 ["inputs"], "every code, constructor and message",
 "The unit tests build one status per constructor with one message.",
 ["src/util/status.rs"], [("Status, LevelError", "src/util/status.rs")], ["h_status_code", "h_status_text", "h_status_display", "h_status_from", "h_status_big", "h_status_corruption", "h_status_utf8"],
 "every 32-bit code; every constructor with messages of 0..=2 ASCII bytes; messages up to 10002 bytes; two messages with an arbitrary character of 1 to 4 bytes each")
# ------------------------------------------------------------------ util::random
prop("C21", "Random numbers stay in range and repeat for equal seeds",
 "Equal seeds give equal sequences. Every number is in 1..=2^31-1, uniform(n) is below n, skewed(l) below 2^l, one_in(n) and next_bool follow from the next number. The generator is the Lehmer generator x -> 16807 x mod (2^31 - 1).",
 ["inputs"], "every seed and every parameter", "The unit tests use a handful of seeds.",
 ["src/util/random.rs"], [("Random::next/uniform/one_in/skewed", "src/util/random.rs")],
 ["h_random_range", "h_random_uniform", "h_random_skewed", "h_random_derived", "h_random_lehmer", "h_random_lehmer_wide"], "every 32-bit seed and parameter; sequences of 3 numbers")
# ------------------------------------------------------------------ util::mutex_lock
prop("C22", "A histogram counts every value and its percentiles are in range",
 "Every value added (finite and not negative) counts once, in the bucket of LevelDB's bucket limits that holds it; number, smallest, largest, sum and sum of squares are those of the values added. Merging gives what adding all values to one histogram gives and leaves the other alone; clearing forgets everything. Of a histogram that is not empty every percentile lies between the smallest and the largest value and, linearly interpolated, in the bucket that reaches its rank; the median is the 50th percentile, the average is sum over number and the standard deviation is a number that is never negative. Printing shows these numbers, and a line with limits, count and shares for every bucket that is not empty.",
 ["inputs", "histories"], "every value and every sequence of values and merges",
 "The unit tests add a few numbers; the limits of 154 buckets and rounding in the spread depend on the exact values.",
 ["src/util/histogram.rs"], [("Histogram::add/merge/clear/percentile/standard_deviation, Display", "src/util/histogram.rs")],
 ["h_hist_one", "h_hist_merge", "h_hist_percentile", "h_hist_spread", "h_hist_big", "h_hist_text"], "any value alone; an arbitrary value below 40 with at most one (spread: two) out of 12 values around limits and extremes, split in every way over two histograms; 6 percentages; 120 values over all buckets in three histograms, then one between 1 and 13, merged; the printed form of up to 3 out of 10 values",
 thorough=["h_hist_one", "h_hist_merge", "h_hist_percentile", "h_hist_spread", "h_hist_big", "h_hist_text", "h_hist_merge_t", "h_hist_percentile_t"], thorough_bounds="two more values besides the arbitrary one",
 note="The state is read through accessors guarded by cfg(verif_hooks); the printed form is checked on values from a list, up to the percentages of each bucket. Floating point is decided exactly; products and quotients are uninterpreted where both sides agree without them.")
prop("C23", "A MutexLock admits one holder at a time through all its handles",
 "All handles obtained from a MutexLock guard the same value: while one handle holds the lock no other can enter, and a write made under the lock is seen through every handle afterwards. Threads that share it lose no update, reach every lock they wait for, and race on nothing.",
 ["inputs", "histories", "schedules"], "every value and every order of entering and leaving", "The unit test increments a counter from threads and cannot force an interleaving.",
 ["src/util/mutex_lock.rs"], [("MutexLock::get_lock, Lock::lock/try_lock", "src/util/mutex_lock.rs")], ["h_mutex_seq", "h_mutex_threads"], "two handles in one thread, every 32-bit value; two threads that each take the lock twice (or try to), with up to 2 preemptions at any atomic operation",
 thorough=["h_mutex_seq", "h_mutex_threads", "h_mutex_threads_t"], thorough_bounds="also three threads with up to 3 preemptions",
 note="Schedules switch threads at atomic operations; every plain access to shared memory must be ordered by happens-before (release and acquire), so that switching elsewhere shows nothing more. Reorderings of a weak memory model are not explored.")
prop("C24", "Threads sharing a cache see the results of some order of their operations",
 "When several threads insert into and look up in one cache, every result and the final contents, charge and eviction are those of carrying out their operations one after another in some order; no operation sees half of another, no access races with another, no value is released early, twice or never, and every operation ends.",
 ["schedules", "histories"], "every interleaving of every pair of operation sequences", "The unit test runs eight threads on eight keys once per run; it cannot choose the interleaving.",
 ["src/util/cache.rs"], [("ShardLRUCache::insert/lookup/total_charge, shard locks", "src/util/cache.rs")],
 ["h_cache_threads", "h_cache_threads_evict", "h_cache_threads_two", "h_cache_threads_shards"], "two threads with one operation each on two colliding keys and up to 3 preemptions, without and with eviction; two against one operation, and one each on keys of two shards or the total charge, with 1 preemption; empty and filled cache; preemptions at every atomic operation",
 thorough=["h_cache_threads", "h_cache_threads_evict", "h_cache_threads_two", "h_cache_threads_shards", "h_cache_threads_t"], thorough_bounds="also two operations each with 2 preemptions and eviction",
 note="Schedules switch threads at atomic operations; every plain access to shared memory must be ordered by happens-before, so that switching elsewhere shows nothing more. Reorderings of a weak memory model are not explored. A counterexample is replayed on real threads, repeatedly, then under miri with 64 schedules.")

na("N01", "Acknowledged writes are readable and survive a crash and reopening",
 "A get returns the value of the latest put or delete of its key as of its snapshot, and after a crash at any point the reopened database holds every synced write and no part of an unacknowledged batch.",
 ["histories", "crash_points", "schedules"], "every history of operations and every crash point", "Unit tests cannot enumerate crash points.",
 ["src/db/db.rs", "src/db/table_cache.rs", "src/db/version_set.rs", "src/db/builder.rs"], [("DefaultDB", "src/db/db.rs"), ("Version/VersionSet", "src/db/version_set.rs")],
 "The database itself is not written yet at this commit: every operation of DefaultDB, Version, VersionSet, Env, FileName and TableCache is todo!(), so there is no behaviour to encode.")
na("N02", "A built table returns every key with its value, in order",
 "A table built from a sorted sequence of entries yields exactly those entries in order, finds each by key, and detects every corrupt block through its checksum.",
 ["inputs", "histories"], "every sequence of entries and every block boundary", "Block boundaries, restarts and prefixes depend on the data.",
 ["src/table/block.rs", "src/table/block_builder.rs", "src/table/table_builder.rs", "src/table/format.rs", "src/table/table.rs"], [("BlockBuilder/TableBuilder", "src/table/table_builder.rs"), ("BlockHandle/Footer encode/decode", "src/table/format.rs")],
 "BlockBuilder, TableBuilder, Block, Table, BlockHandle and Footer encoding are todo!() at this commit; nothing runs past construction.")
na("N03", "Internal keys order by user key, then newest first, and parse back",
 "The internal key comparator orders by user key ascending, then by sequence and type descending; parsing an internal key yields the parts it was made from and refuses malformed ones.",
 ["inputs"], "all pairs of internal keys", "The interesting pairs share user keys or prefixes.",
 ["src/db/db_format.rs"], [("InternalKeyComparator, ParsedInternalKey", "src/db/db_format.rs")],
 "InternalKeyComparator::compare*, ParsedInternalKey::append/parse/extract and InternalKey::decode_from are todo!() at this commit; the implemented neighbours (tags, lookup keys) are C17.")
na("N04", "A version edit decodes to the edit that was encoded",
 "Decoding the encoding of a version edit yields an equal edit, and malformed input is reported as corruption.",
 ["inputs"], "every edit and every byte string", "Truncated and corrupt manifests are never tested.",
 ["src/db/version_edit.rs"], [("VersionEdit::decode_from", "src/db/version_edit.rs")],
 "VersionEdit::decode_from is an unfinished stub (the loop is commented out and the result a placeholder); the encoding half is C18.")
na("N05", "A memtable returns the newest entry for a key and iterates in order",
 "A memtable lookup returns the value of the newest entry at or below the sequence of the lookup key, reports a deletion as such, and iteration visits entries in internal key order.",
 ["inputs", "histories"], "every history of additions and every lookup", "Needs entries with equal keys and several sequences.",
 ["src/db/mem_table.rs"], [("MemTable::get/new_iterator", "src/db/mem_table.rs")],
 "MemTable::get and new_iterator are todo!() at this commit; the entries themselves are C17 and their order in the list C15.")
na("N06", "A filter block reader matches every key of a data block",
 "For every data block offset and key added for it the reader answers that the key may match, and malformed filter blocks never cause a wrong negative.",
 ["inputs", "histories"], "every filter block and every offset", "Ranges without keys and offsets past the end are special cases.",
 ["src/table/filter_block.rs"], [("FilterBlockReader::key_may_match", "src/table/filter_block.rs")],
 "FilterBlockReader::key_may_match is todo!() and the constructor discards its input at this commit; the builder is C10 and the policy C09.")
