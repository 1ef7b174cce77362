import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
BV='src/bit_vec/mod.rs'; MK='src/bit_vec/mask.rs'; SP='src/bit_vec/sparse.rs'; RS='src/bit_vec/fast_rs_vec/mod.rs'; SEL='src/bit_vec/fast_rs_vec/select.rs'; IT='src/bit_vec/fast_rs_vec/iter.rs'; BS='src/bit_vec/fast_rs_vec/bitset.rs'
GI='src/util/general_iter.rs'; EI='src/util/elias_fano_iter.rs'; EF='src/elias_fano/mod.rs'; BR='src/rmq/binary_rmq/mod.rs'; FR='src/rmq/fast_rmq/mod.rs'; WV='src/wavelet/mod.rs'; BP='src/trees/bp/mod.rs'; MM='src/trees/mmt.rs'; BB='src/trees/bp/builder.rs'; L8='src/trees/bp/lookup_query.rs'; L16='src/trees/bp/lookup.rs'; PD='src/util/pdep.rs'
limbs=("data/len","64-bit limbs plus a bit length; bits past the end may be junk",BV)
p("C01","A bit vector holds exactly the bits its mutation history put there",
 "After any sequence of appends (single bits, words, up to 64 bits of a word), drops, flips, sets, in-place masks, extensions and splits, a bit vector's length and every read of it (single bits, ranges of up to 64 bits, counts, iteration, limbs up to the length) equal those of an ideal bit sequence on which the same operations were performed. Bits that were dropped, or surplus bits of an appended word, never become visible again.",
 ["histories","inputs"],"every finite history of mutating calls with every argument in the documented domain, on vectors of any length",
 "the tests run short fixed histories; the state that matters (junk past the end, word alignment) is a product of the history and of length modulo 64, which they sample at a handful of points",
 [BV],[limbs],[("append*/drop_last/extend_bitvec/split_at*/set/flip_bit/apply_mask_*",BV)],["return values of the public BitVec API"])
p("C02","Bit-vector constructors and packing encode exactly their input",
 "Every constructor of a bit vector (zeros, ones, from bits of any integer width, from booleans, from limbs, from iterators) yields exactly the bits of its input in order, using only the lowest bit of bit-valued elements. Packing a sequence with any number of bits per element (below, at, or above the element width) stores each element truncated or zero-extended to that many bits, and unpacking with the same width (up to 64) returns each element.",
 ["inputs"],"all input sequences, element types and element widths",
 "tests pack a few short sequences at a few widths; correctness depends on width x position x word alignment",
 [BV],[limbs],[("from_*/pack_sequence_*/pack_from_iter_*/unpack_element*",BV)],["BitVec reads after construction"])
p("C03","Bit-vector equality and hash depend only on the represented bits",
 "Two bit vectors compare equal exactly if they have the same length and the same bits, no matter through which constructors and mutations each was produced. Equal bit vectors hash equally.",
 ["histories","inputs"],"all pairs of histories producing vectors of equal or different content",
 "equality is tested on a few pairs; junk past the end, full last words and differing only in the last word are history-dependent cases",
 [BV],[limbs],[("PartialEq::eq, Hash::hash",BV)],["==, hash of BitVec"])
p("C04","A lazily masked bit vector answers like the eagerly masked one",
 "For any two bit vectors of equal length and any bitwise operation (or, and, xor, or a custom word function), every query on the lazy mask view (single bits, ranges of up to 64 bits, counts of ones and zeros, conversion to a vector) equals the same query on the vector obtained by applying the operation bit by bit, and so does applying the mask in place. Masking vectors of different length is rejected with an error and changes nothing.",
 ["inputs","histories"],"all pairs of vectors, operations and query ranges",
 "mask tests use few lengths and alignments and never read 64 bits at unaligned positions",
 [MK,BV],[("vec/mask/bin_op","the two operands and the word operation",MK)],[("MaskedBitVec queries",MK),("apply_mask_*",BV)],["MaskedBitVec API"])
p("C05","Rank counts exactly the matching bits before any position",
 "For every bit vector converted to a rank/select vector, rank of zeros (ones) at any position equals the number of zero (one) bits strictly before it, and at any position past the end equals the total count. Random access and multi-bit reads on the rank/select vector return exactly the original bits.",
 ["inputs"],"all bit vectors of any length and density and all positions",
 "tests check some vectors; the result depends on three index levels whose boundaries (64/512/8192 bits) interact with padding of the source vector",
 [RS],[("blocks, super_blocks","relative/absolute zero counts",RS)],[("from_bit_vec, rank",RS)],["rank0/rank1/get/get_bits/len of RsVec"])
p("C06","Select finds exactly the k-th matching bit and inverts rank",
 "For every bit vector and every k, selecting the k-th zero (one) returns the position of the zero (one) bit that has exactly k such bits before it, and returns the vector's length if there are not more than k of them. Hence rank of select is the identity on all existing ranks.",
 ["inputs"],"all bit vectors and all ranks, including sparse, dense and adversarially clustered ones",
 "tests sample random vectors; the search has regimes (same select block, neighbouring superblocks, binary search over many superblocks, padding blocks) that only particular distributions reach",
 [SEL,RS,PD,'src/util/unroll.rs'],[("select_blocks","hints to the super block of every 8192nd zero/one",RS)],[("select0/select1, search_super_block*/search_block*/search_word_in_block*",SEL)],["select0/select1"])
p("C07","Bit-position iterators yield exactly the matching positions from both ends",
 "Iterating the positions of ones (zeros) of a rank/select vector, borrowed or owned, yields exactly those positions in increasing order; under any interleaving of next, next_back, nth, nth_back, len, count and last, front and back together yield every position at most once, skipped positions are consumed, and exhausted iterators stay exhausted. The vectorised bit-set iterators (where available) yield the same forward sequence.",
 ["histories","inputs"],"all vectors and all interleavings of iterator calls, including jumps across index blocks",
 "tests interleave a handful of calls; cached block positions make results depend on the whole call history",
 [IT,BS],[("next_rank, next_rank_back, last_block*, last_super_block*","cursors and search caches",IT)],[("select_next_0/1(_back), advance_by",IT),("BitSetIter",BS)],["iter0/iter1/into_iter0/into_iter1/select_iter/bit_set_iter0/bit_set_iter1"])
p("C08","Rank/select vector equality is content equality in every comparison mode",
 "Two rank/select vectors compare equal if and only if they have the same length and the same bits; full comparison, sparse comparison by ones, sparse comparison by zeros and the == operator all give this answer. It does not depend on how the source bit vectors were produced, nor on the size of the vectors.",
 ["inputs","histories","configurations"],"all pairs of vectors, in all comparison modes, below and above the size at which == switches algorithm",
 "tests compare a few pairs; the comparison by positions, the size switch and padding junk are rarely reached",
 [RS],[("len, rank1, data","content compared",RS)],[("sparse_equals/full_equals/eq",RS)],["sparse_equals/full_equals/== of RsVec"])
p("C09","Element iterators honour the double-ended exact-size fused protocol",
 "For bit vectors, rank/select vectors, Elias-Fano vectors and wavelet matrices (in sequence and in sorted order, as words and as integers), the borrowing and owning iterators yield the elements in order; under any interleaving of next, next_back, nth, nth_back, len, size_hint, count, last, min and max, each element is yielded at most once by either end, skipped elements are consumed, the reported length is exact, and after exhaustion only None is returned.",
 ["histories","inputs"],"all element sequences and all interleavings of iterator calls with any skip distance",
 "tests try a few call orders; cursors meeting in the middle and skips at or past the end are histories, not single inputs",
 [GI,EI,WV],[("index, back_index","front and back cursor, None = before element 0",GI)],[("gen_vector_iter_impl",GI),("gen_ef_iter_impl",EI)],["Iterator/DoubleEndedIterator/ExactSizeIterator impls"])
p("C10","Elias-Fano encoding stores any sorted sequence losslessly",
 "For every non-decreasing sequence of 64-bit integers (with duplicates, gaps of any size, any offset), the Elias-Fano vector reports its length, returns the i-th element for every i and None past the end, and returns as i-th delta the difference to the previous element (to zero for the first).",
 ["inputs"],"all sorted sequences over the full 64-bit range",
 "the split into upper and lower bits depends on length and universe; tests sample few combinations",
 [EF],[("upper_vec, lower_vec, lower_len, universe_zero","the two-part code",EF)],[("from_slice/get/select/delta",EF)],["EliasFanoVec get/select/delta/len/iter"])
p("C11","Elias-Fano predecessor, successor and rank are exact",
 "For every sorted sequence and every 64-bit query, predecessor is the largest element not above the query, successor the smallest element not below it (None if there is none), and rank is the number of elements strictly smaller than the query.",
 ["inputs"],"all sorted sequences and all queries",
 "the search branches on the number of elements sharing upper bits (linear or binary search) and on duplicates; tests reach only some of these",
 [EF],[("upper_vec, lower_vec","searched code",EF)],[("predecessor*/successor*/rank, search_element_in_block",EF)],["EliasFanoVec predecessor/successor/rank"])
p("C12","The sparse rank/select vector agrees with the plain bit vector",
 "A sparse vector built from a sorted set of positions and a length, or from a bit vector or its inversion, answers length, bit access, rank of ones, rank of zeros, select of ones and iteration of ones exactly like the bit vector with those bits. Positions past the end yield None for access and the total count for rank.",
 ["inputs"],"all sets of positions and all queries",
 "tests use a few sets; all-zero vectors, queries left of the first one and conversions of padded vectors are edge cases of the compressed search",
 [SP,EF],[("vec","Elias-Fano code of the 1-positions",SP)],[("is_set/get/select1/rank1/rank0/from_bitvec*",SP)],["SparseRSVec API"])
p("C13","The sparse-table range-minimum structure returns a true minimum",
 "For every non-empty array and every non-empty index range inside it, the sparse-table range-minimum structure returns an index inside the range whose value is not greater than any other value in the range. Queries given as Rust range expressions are clamped to the array and answer the same question.",
 ["inputs"],"all arrays of 64-bit values and all ranges",
 "tests check random arrays of a few sizes; ranges of power-of-two length and non-power-of-two array lengths interact at the table's edge",
 [BR],[("results","argmin offsets per power-of-two window",BR)],[("from_vec/range_min/range_min_with_range",BR)],["BinaryRmq range_min/range_min_with_range"])
p("C14","The succinct range-minimum structure returns a true minimum",
 "For every non-empty array and every non-empty index range inside it, the block-based range-minimum structure returns an index inside the range whose value is not greater than any other value in the range, for ranges within one block, across neighbouring blocks and across many blocks. Queries given as Rust range expressions are clamped to the array and answer the same question.",
 ["inputs"],"all arrays of 64-bit values and all ranges",
 "a range falls into one of several cases by its position relative to 128-element blocks and their prefix/suffix minima; tests sample few",
 [FR,BR],[("block_minima, block_min_indices, blocks","per-block minima and prefix/suffix minimum bitmaps",FR)],[("from_vec/range_min/SmallBitVector",FR)],["FastRmq range_min/range_min_with_range"])
p("C15","A wavelet matrix returns the encoded sequence however it was built",
 "For every sequence of k-bit words (k from 1 up to more than 64), the wavelet matrix built by sorting or by prefix counting, from integers or from a packed bit vector, has the sequence's length and width and returns every element, as bit vector and (for k up to 64) as integer; reads past the end and integer reads for wider words return None.",
 ["inputs"],"all sequences, word widths and constructors",
 "tests use few widths and short sequences; the level permutation must be consistent across all levels and index blocks",
 [WV],[("data","one rank/select vector per bit level",WV)],[("permutation_sorting/prefix_counting/reconstruct_value_unchecked",WV)],["WaveletMatrix get_value/get_u64/len/bits_per_element"])
p("C16","Wavelet rank and select are exact for every symbol and range",
 "For every sequence, symbol (occurring or not) and range, rank counts exactly the symbol's occurrences in the range, and select with an offset returns the position of the requested occurrence at or after the offset, or None if there is none. The bit-vector and integer variants agree, and arguments out of bounds (range, offset, symbol width) return None.",
 ["inputs"],"all sequences, symbols, ranges, offsets and ranks",
 "tests check few symbols on small sequences",
 [WV],[("data","levels",WV)],[("rank_range*/rank_offset*/rank*/select_offset*/select*",WV)],["WaveletMatrix rank*/select*"])
p("C17","Wavelet order statistics equal those of the sorted range",
 "For every sequence and non-empty range, the j-th quantile, minimum, maximum and median (lower middle) are the corresponding elements of the sorted range, and sorted access and sorted iteration enumerate the whole sequence in sorted order with multiplicity. Empty, inverted or out-of-bounds ranges and too large j return None.",
 ["inputs"],"all sequences, ranges and ranks",
 "tests check few ranges on small sequences",
 [WV],[("data","levels",WV)],[("partial_quantile_search*/quantile*/get_sorted*/range_min*/range_max*/range_median*",WV)],["WaveletMatrix quantile/get_sorted/range_* and sorted iterators"])
p("C18","Wavelet range predecessor and successor are exact",
 "For every sequence, non-empty range and symbol of the alphabet (occurring or not), predecessor returns the largest element of the range not above the symbol and successor the smallest not below it, None if there is none; bit-vector and integer variants agree.",
 ["inputs"],"all sequences, ranges and symbols",
 "the search keeps a fallback branch per level; only particular element/symbol/range combinations reach a given fallback level",
 [WV],[("data","levels",WV)],[("predecessor_generic_unchecked/successor_generic_unchecked",WV)],["WaveletMatrix predecessor*/successor*"])
p("C19","Excess search and parenthesis matching are exact on any parenthesis string",
 "For every parenthesis string (balanced or not, of any length including empty) and every block size, the forward (backward) search returns the nearest later (earlier) position at which the requested relative excess is reached, or None if there is none; closing, opening and enclosing parentheses and the excess at a position (the total excess past the end) are what bracket matching defines. No such query panics.",
 ["inputs","configurations"],"all parenthesis strings, start positions, relative excesses, block sizes and lookup-table variants",
 "the search walks bits, lookup tables, blocks and a min-max tree; tests use few shapes, block sizes and excess values",
 [BP,MM,L8,L16],[("vec, min_max_tree","parentheses and heap of block excess minima/maxima",BP)],[("fwd_search/bwd_search",BP),("MinMaxTree::excess_tree/fwd_search/bwd_search",MM),("process_block_fwd/bwd",L8)],["BpTree fwd_search/bwd_search/close/open/enclose/excess"])
p("C20","Tree navigation returns the nodes the tree's shape defines",
 "For every ordered tree and every node, root, parent, first and last child, next and previous sibling, leaf test, depth, node count, child enumeration in both directions (also after some steps: the size hint brackets what is left, and an ended enumeration stays ended) and the bijection between nodes and their pre-order indices are those of the tree, for every block size.",
 ["inputs","configurations"],"all trees (paths, stars, bushy, large) and all nodes",
 "tests navigate a few hand-made trees and compare little else; long-distance matches across many blocks depend on the shape",
 [BP,MM],[("vec, min_max_tree","tree encoding",BP)],[("impl Tree for BpTree, ChildrenIter",BP)],["Tree trait methods, children/rev_children"])
p("C21","Level-order, ancestor and subtree queries and traversals match the tree",
 "For every ordered tree, subtree sizes, ancestor tests, the i-th ancestor, the next/previous/leftmost/rightmost node of a level, and pre-order and post-order traversals of the tree and of any subtree (complete, partly consumed or skipping ahead, with size hints that bracket what is left) are those of the tree.",
 ["inputs","configurations"],"all trees, nodes, node pairs and levels",
 "tests cover few trees; level queries combine forward and backward searches over arbitrary distances",
 [BP,MM],[("vec, min_max_tree","tree encoding",BP)],[("LevelTree/IsAncestor/SubtreeSize impls, dfs_iter/dfs_post_iter/subtree_iter/subtree_post_iter",BP)],["LevelTree, IsAncestor, SubtreeSize, iterators"])
p("C22","The tree builder yields the visited tree or reports the imbalance",
 "After any sequence of enter and leave calls, building succeeds exactly if the calls are balanced in total, and then yields the tree whose parenthesis string is the call sequence; otherwise the error carries the number of enters minus the number of leaves.",
 ["histories"],"all sequences of enter/leave calls",
 "tests build a few trees",
 [BB],[("excess, bit_vec","running excess and recorded parentheses",BB)],[("enter_node/leave_node/build",BB)],["BpBuilder / TreeBuilder"])
p("C23","Serialized structures behave identically after deserialization",
 "With serialization enabled, every data structure (bit vector, rank/select vector, Elias-Fano, sparse vector, both range-minimum structures, wavelet matrix, tree), serialized and deserialized through a lossless format, answers every query exactly as the original and compares equal to it where equality is defined.",
 ["inputs"],"all instances of all structures",
 "there are no serialization tests of this behaviour at all",
 [BV,RS,SP,EF,BR,FR,WV,BP,MM],[("derived Serialize/Deserialize","all fields",'src')],[("serde derives",'src')],["queries on the deserialized value"])
p("C24","Checked operations are total: documented None or Err, never a panic",
 "Operations documented to signal bad arguments by None, Err or a saturated value do exactly that for every argument, including positions at and around the length and up to the largest integer, and zero or too large widths, on empty and non-empty structures of every kind. They never panic and never return a value for an out-of-bounds argument.",
 ["inputs","configurations"],"all structures, all arguments up to the maximal machine integer, with and without overflow checks",
 "tests probe an argument or two just past the end; overflow near the maximal integer depends on build mode",
 [BV,MK,RS,SP,EF,WV,BP,BR,FR],[("len","bound against which arguments are checked",BV)],[("bounds checks of checked accessors",'src')],["results (incl. panics) of checked calls"])
p("C25","Answers do not depend on build configuration",
 "The same inputs and call histories produce identical observable results whether or not the library is built with hardware bit-manipulation instructions, vector instructions, the larger lookup table, optimisation, or overflow checks.",
 ["configurations","inputs"],"all inputs and histories under all supported combinations of features, target CPU and build profile",
 "each test runs within one configuration and never compares configurations",
 [SEL,PD,BS,L8,L16,BP,RS],[("cfg(feature), cfg(target_feature)","alternative implementations",'src')],[("pdep fallback, simd search, u16 lookup",PD)],["recorded traces of all configurations"])
p("C26","Converting between representations never changes the bits",
 "Converting a bit vector to a rank/select vector or a tree and back, collecting a mask view, splitting a vector at any point and re-joining the parts, and rebuilding a vector from its bits or limbs, or converting it to a sparse vector by the standard conversions, all preserve length and bits, whatever history produced the source.",
 ["histories","inputs"],"all vectors, histories and split points",
 "tests convert a few clean vectors; residual junk past the end and word alignment are history-dependent",
 [BV,RS,BP,MK],[limbs],[("From/Into impls, into_bit_vec, into_parentheses_vec, split_at, extend, to_bit_vec",BV)],["content of converted values"])
p("C27","Reported memory is used memory; reservations hold; all of it is returned",
 "For every structure (bit vector, rank/select vector, sparse vector, Elias-Fano vector, both range-minimum structures, wavelet matrix, tree) and whatever input or history produced it, the reported heap size is exactly the number of bytes the structure uses on the heap: the bytes a clone of it allocates, which leaves out spare capacity and is therefore never more than what the structure itself holds. With the mem_dbg feature, the sizes it reports are the same bytes and, with spare capacity, all the bytes held. Dropping a structure, a clone, or what a structure was consumed into by a conversion or an owning iterator returns every byte held. A bit vector created with a capacity takes appended bits up to that capacity, and a tree builder created with a capacity for nodes takes that many nodes, without allocating again, and extending a bit vector with another one allocates at most once.",
 ["inputs","histories"],"all structures over all inputs and mutation histories",
 "tests assert a few fixed numbers for a few sizes, mostly of one structure",
 [BV,RS,SP,EF,BR,FR,WV,BP,MM],[("boxed slices and vectors of every structure","what is held on the heap",'src')],[("heap_size of every structure",'src')],["heap_size(), allocations and frees observed by the allocator"])
p("C28","Queries are pure: order, copies, misuse and threads never change an answer",
 "A structure that is only queried (bit vector and mask view, rank/select vector, sparse vector, Elias-Fano vector, both range-minimum structures, wavelet matrix, tree) gives every query the same answer each time, on itself and on every clone: whatever queries were asked before and in whatever order, whatever invalid or unchecked out-of-range queries failed, panicked or returned garbage in between (they do end), and however many threads query the same structure at the same time. All structures can be shared between threads and sent to other threads.",
 ["histories","schedules","inputs"],"all histories and interleavings of queries by any number of threads on all structures",
 "tests query from one thread, mostly once, and never after a failed query",
 [BV,MK,RS,SP,EF,BR,FR,WV,BP,MM],[("contents of the structures","the only state a query may depend on",'src')],[("all &self methods and iterators",'src')],["answers of repeated, reordered and concurrent queries"])
p("C29","Rejected and out-of-bounds operations leave bit vectors untouched",
 "A refused operation on a bit vector (setting or flipping a bit past the end, appending more than 64 bits of a word, masking with a vector of another length, splitting past the end) and an unchecked read, set or flip past the end leave the length and every bit as they were, and later operations proceed as if it had not been called (apart from append_bits_unchecked, whose contract excludes stale bits). The calls documented to reject their arguments by a panic do so: flip_bit past the end, append_bits of more than 64 bits, wavelet matrices from a bit vector whose length is not a multiple of the width or, from integers or by prefix counting, with a width above 64, and range-minimum queries by range on empty data.",
 ["histories","inputs"],"all histories with rejected calls at any point and any arguments",
 "tests check a rejection here and there, but not the state of the structure after it",
 [BV,MK,WV,FR,BR],[limbs],[("bounds checks and assertions of mutating operations and constructors",'src')],["reads after rejected calls; whether a call panicked"])
p("C30","Space stays within the succinct bounds",
 "However a structure was built and whatever history led to it, the heap bytes it reports and the heap bytes its contents occupy (what a clone allocates) stay within its space bound. A bit vector of n bits: 8*ceil(n/64)+8 bytes. A rank/select vector of n bits: that, plus 28 bits per started 512 bits, plus 128 bytes. An Elias-Fano vector or sparse bit vector storing n values (the stored positions, for the sparse vector, however long it is) spanning u = last - first: n*(ceil(log2(u/n))+5) bits (the logarithm taken as 0 if u <= n) plus 256 bytes. A wavelet matrix of n elements of k bits: k times (the bound of a rank/select vector of n bits plus 256 bytes), plus 64 bytes. A tree over n parentheses with block size b: the bound of a rank/select vector of n bits plus 24*(3*ceil(n/b)+2) bytes. The sparse-table range-minimum structure over n values: 8n + 4n*(ceil(log2 n)+1) + 64 bytes. The blocked one: 8n + 33*m + 64 bytes plus the bound of a sparse table over m values, for m = ceil(n/128).",
 ["inputs","histories"],"all structures over all inputs and mutation histories",
 "wasted space changes no answer; tests assert a few fixed numbers for a few sizes of a few structures",
 [BV,RS,SP,EF,BR,FR,WV,BP,MM],[("boxed slices and vectors of every structure","what is held on the heap",'src')],[("constructors, truncation and width selection",'src')],["heap_size(), allocations of a clone"])
p("C31","Queries take no more than their documented time",
 "Whatever the structure represents, a query takes no more work than its documented complexity allows; the work is counted in machine instructions of an optimised build for a generic x86-64 (no hardware bit manipulation, with the 16-bit lookup table), and the constants are several times what the algorithms need. Reading, setting or flipping a bit or a group of bits of a bit vector, or reading one through a mask: constant (1000). Rank and access on a rank/select vector: constant (1500). Select, and nth or the next step of an iterator over positions: logarithmic in the length even at worst, also where the bits are rare or clustered (4000+300*log2 n). Access, predecessor, successor, rank and iterator steps on Elias-Fano and sparse vectors: logarithmic at worst, also with runs of equal values and outliers (8000+600*log2 n). Range minimum: constant (1000 for the sparse table, 5000 for the blocked structure). Wavelet queries: proportional to the k bits of an element (5000+3000k; select 5000+k*(4000+300*log2 n)). Every tree operation on n parentheses in blocks of b, whatever the shape of the tree: logarithmic plus the scan of a few blocks (4000+64b+600*log2 n). Building is linear (bit vectors to rank/select 50 per bit, Elias-Fano 600 per value, blocked range minimum 600 per value, trees 300 per parenthesis, wavelet 400 per bit; the sparse table 400*(log2 n+1) per value); counting, comparing, masking and splitting bit vectors at most 32 per bit.",
 ["inputs"],"all structures over all inputs, all queries",
 "a query that degenerates to a scan gives the right answer; tests look at answers only",
 [SEL,RS,IT,EF,SP,FR,BR,WV,BP,MM,BV],[("directories: super-blocks, select samples, block minima, min-max tree","what makes queries fast",'src')],[("all queries and constructors",'src')],["instructions executed per call"])
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
