#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script because the entries share structure)."""
import json, os
L='src/lib.rs'
ALL=['src/lib.rs','src/bup.rs','src/buzhash.rs','src/fastcdc.rs','src/gear.rs','src/gzip.rs','src/mii.rs','src/pigz.rs','src/ram.rs','src/zpaq.rs','src/zstd.rs']
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p('C01','Incremental edges do not depend on how the stream is sliced',
 'For every chunking algorithm and configuration, feeding a stream incrementally gives the same edges (as positions in the stream) however the stream is cut into slices: byte by byte, all at once, with empty slices in between, or anything else. The caller continues with the data following the reported index, as the slice iterators do.',
 ['inputs','schedules','configurations'],'every stream, every division of it into slices (including empty ones), every configuration of all ten algorithms',
 'The cut tests feed one pseudo-random stream one byte at a time and ignore the index returned; no test feeds multi-byte slices incrementally (except one bup and one fastcdc test, which do so once per stream).',
 ALL,[('push() carries hash, window, window offset and chunk length across calls','each ChunkIncr impl'),('partial window fill over several calls','src/zstd.rs ZstdIncr::push'),('bytes skipped below the minimum are counted across calls','src/fastcdc.rs FastCdcState::push')],
 [('l / i / idx / input_idx','bytes of the current chunk seen in earlier calls','fastcdc.rs, ram.rs, zpaq.rs, buzhash.rs'),('window, wofs, window_offs, window_full, buf_idx','ring buffers of the last bytes','bup.rs, zstd.rs, buzhash.rs, gzip.rs')],
 ['ChunkIncr::push return values'])
p('C02','Buffered-search edges do not depend on how the buffer grows',
 'For every algorithm and configuration, searching a stream for edges in a buffer that the caller extends gives the same edges whatever amounts of data are appended between calls (one byte, everything, or nothing), as long as the caller drops exactly the number of bytes it was told to discard and keeps the rest.',
 ['inputs','schedules','configurations'],'every stream, every schedule of buffer extensions between calls, every configuration of all ten algorithms',
 'The proptest tests sample 256 random streams per algorithm with the default configurations, in which edges are so rare that few streams contain two (none for zstd); the combination of an edge or a full window with a particular buffer end is not reached.',
 ALL,[('discard count and resume offset keep exactly the window','RollSum/BuzHash/GzipRsyncable/Zstd::find_chunk_edge'),('search state carried over when there is no edge','each SearchState')],
 [('offset','first byte of the buffer not examined yet','SearchState of bup, buzhash, gzip, zstd')],
 ['Chunk::find_chunk_edge return values'])
p('C03','Both interfaces find the same edges',
 'For every algorithm, configuration and stream, the incremental interface and the buffered search report the same edges.',
 ['inputs','configurations'],'every stream and every configuration of all ten algorithms',
 'The cut tests compare them on one or two pseudo-random streams per algorithm and one configuration (and count incremental edges by the call, not by the index reported), so limits, windows and edges close to one another are not compared.',
 ALL,[('same hash, reset and limit rules implemented twice','find_chunk_edge and push of each module')],(),
 ['Chunk::find_chunk_edge vs ChunkIncr::push on the same stream'])
p('C04','Every call gives a legal result and processing always ends',
 'No call panics or fails to return, for any data (empty or longer than any limit) and any accepted configuration. Every reported index and discard count lies within the data passed, no bytes beyond a reported edge are discarded, and every edge is further along the stream than the previous one, so chunks are never empty and the documented processing loops end.',
 ['inputs','schedules','configurations'],'every stream, slicing and buffer schedule; configurations including degenerate limits (0, 1, minimum above maximum, maximal integers), with windows and moduli of at least 1, pigz bits below 32, gear log2 in 1..=31',
 'Tests use the default sizes on random data: limits reached exactly at the end of the data, zero sizes and single-byte edges never occur.',
 ALL,[('index + 1 / discard arithmetic','find_chunk_edge and push of each module'),('IterSlices / IterSlicesStrict loops','src/lib.rs')],(),
 ['all return values of push, find_chunk_edge, next'])
p('C05','Slice iterators partition their input exactly',
 'For every algorithm and input, the slices of the (non-strict) slice iterator are non-empty and concatenate to the input, each but the last ending at an edge. The strict iterator gives only complete chunks and stays ended once it ended; the remainder it hands out at any point is exactly what its slices have not covered. The chunker obtained from either iterator at any point can be used to carry on with the stream.',
 ['inputs','histories'],'every input, every algorithm, and every point of the iteration at which the caller stops, takes the remainder or takes the iterator apart',
 'No test uses the slice iterators at all.',
 [L]+ALL[1:],[('IterSlices::next, IterSlicesStrict::next / take_rem / into_parts','src/lib.rs')],
 [('rem','data not yet handed out','src/lib.rs IterSlices, IterSlicesStrict')],['items of the iterators, take_rem(), into_parts()'])
p('C06','Chunk length limits hold',
 'A completed chunk is never shorter than the configured minimum nor longer than the configured maximum: FastCDC minimum and maximum sizes, the ZPAQ range (whichever kinds of bounds), more than w bytes for RAM, more than w bytes for MII, and for BuzHash at most one byte above its maximum chunk size. When nothing in the data triggers an edge, the chunk is ended at exactly the maximum. Both interfaces obey the limits, however the data is sliced.',
 ['inputs','schedules','configurations'],'every stream, slicing, and configuration whose limits are ordered (FastCDC: minimum <= normal <= maximum and minimum < maximum; ZPAQ: range not empty)',
 'No test reaches a maximum, and minima are only met by chance on random data.',
 ['src/fastcdc.rs','src/zpaq.rs','src/ram.rs','src/mii.rs','src/buzhash.rs','src/range.rs'],[('length checks','FastCdcState::push, Zpaq::split_here, RamState::push, BuzHash')],(),
 ['differences between consecutive edges'])
p('C07','Chunking restarts cleanly at an edge, so streams re-align',
 'What follows an edge is chunked as if the stream had started there, whatever preceded it (for zstd: as if it had started 32 bytes earlier). Hence once two streams with a common tail have an edge at the same place in it, all their later edges agree, which is what makes deduplication after insertions and deletions work.',
 ['inputs','histories'],'every stream, every edge in it, both interfaces, all algorithms',
 'No test compares a stream with its tail or with an edited version of itself.',
 ALL,[('reset of hash, window, length and prediction tables at an edge','each module')],(),['edges of a stream vs edges of its tail'])
p('C08','Edges depend only on the window',
 'For the windowed hashes (bup, BuzHash and gzip: the configured window; gear: 32 bytes; pigz: as many bytes as bits; zstd: 32 bytes) whether a position at least a window past the previous edge is an edge depends only on the bytes in the window (and, where there is one, on the maximum length being reached). Bytes that left the window have no influence at all.',
 ['inputs','configurations'],'every pair of streams that agree on a window, every window size, table and mask',
 'Tests use one window size on random data and never compare streams that share a window; a byte not removed completely from the hash goes unnoticed.',
 ['src/bup.rs','src/buzhash.rs','src/gzip.rs','src/gear.rs','src/pigz.rs','src/zstd.rs'],[('removal of the byte leaving the window','RollSumState::add, BuzHashState::add_overflow, GzipRsyncableState::add, ZstdState::rotate')],(),['edges of streams with equal windows'])
p('C09','Streams do not influence one another',
 'The edges of a stream depend on its configuration and data alone: not on other streams being processed in between with the same or other configurations, on streams processed before, or on which interface those use. A clone of a partly fed incremental chunker carries on from that point like the original, and neither affects the other.',
 ['schedules','histories','configurations'],'every interleaving of the calls for two streams, every point at which a chunker is cloned',
 'Every test processes one stream at a time, with a single configuration, and none clones a fed chunker.',
 ALL,[('all varying state lives in the incremental chunker or the search state; configurations are immutable','each module')],(),['edges of interleaved streams vs edges of the same streams on their own'])
p('C10','Look-behind needed by the buffered search is bounded',
 'The buffered search never asks the caller to keep more than the window of already examined data: after a call that found no edge, at most the window size remains to be kept (bup, BuzHash, gzip: configured window; zstd: 32 bytes) and nothing at all for the other algorithms. After an edge, everything before the edge may be discarded (for zstd, everything but the 32 bytes before it).',
 ['inputs','schedules','configurations'],'every stream, buffer schedule and configuration',
 'Tests never look at the discard counts except to follow them; a search that discards nothing passes all of them.',
 ALL,[('discard_ct computation','find_chunk_edge of each module')],(),['second component of find_chunk_edge results'])
p('C11','RollSum matches bup',
 'For every stream and window length, RollSum edges are those of bup: with the window empty (zeros) at the start of each chunk, s1 and s2 being the bupsplit sums over the window, there is an edge where the low 13 bits of the digest are all ones. After any sequence of rolled bytes, the digest (and whether it is an edge) is that of bup for the last window of bytes.',
 ['inputs','histories','configurations'],'every stream, every window length of at least 1',
 'The tests compare with the rollsum crate on short random inputs with the default window, in which edges (1 in 8192 bytes) rarely occur and hardly ever within a window of one another.',
 ['src/bup.rs'],[('RollSumState::add / digest / at_split','src/bup.rs')],[('s1, s2','sums over the window','src/bup.rs')],['edges; RollSumIncr::digest(), at_split()'])
p('C12','BuzHash computes the cyclic polynomial hash',
 'BuzHash edges are at the positions where the cyclic polynomial hash of the last k bytes of the chunk (or all of it, while shorter) has all mask bits set, or where the chunk length has grown above the maximum. The byte hash is the table (salted by exclusive or) given; the built-in tables are those published by silvasur/buzhash and Borg, the latter combined with the seed by exclusive or.',
 ['inputs','configurations'],'every stream, window length (including lengths that are not a multiple of anything), mask, salt, seed, table and maximum',
 'One stream, with k = 67 and one table, is pinned; window lengths for which removal rotates differently, salts, seeds, the Borg table and the maximum are not tested.',
 ['src/buzhash.rs','src/buzhash_table.rs'],[('BuzHashState::add_overflow','src/buzhash.rs'),('hash() of the table types, borg_buzhash_table','src/buzhash.rs, src/buzhash_table.rs')],(),['edges; hash() values; tables'])
p('C13','FastCDC matches the published algorithm',
 'In each chunk the minimum size is skipped without being hashed, then the gear hash is compared with the stricter mask up to the normal size and with the looser mask after it, and the chunk ends at the maximum at the latest. The incremental interface reports the matching position as in the published pseudocode; the buffered search includes the matching byte in the chunk.',
 ['inputs','schedules','configurations'],'every stream, gear table, and minimum <= normal <= maximum sizes with minimum < maximum',
 'The oracle tests compare the first chunk of random data with the default sizes, pushed at once: neither later chunks, nor the maximum, nor slices ending in a region (skipped, strict, loose) are compared.',
 ['src/fastcdc.rs','src/gear_table/gear64.rs'],[('FastCdcState::push','src/fastcdc.rs')],[('l, fp','bytes of the chunk seen and fingerprint','src/fastcdc.rs')],['edges'])
p('C14','Gear32 matches the published algorithm',
 'Gear32 edges are at the positions where the log2(average) most significant bits of the gear fingerprint of the chunk (shift left by one and add the table entry of the byte) are zero, for every average size 2 to 2^31.',
 ['inputs','configurations'],'every stream and every average size',
 'One random stream with the default average is pinned, which uses few of the table entries at edges.',
 ['src/gear.rs','src/gear_table/gear32.rs'],[('GearState32::push, msb_mask','src/gear.rs')],(),['edges'])
p('C15','gzip-rsyncable matches its definition',
 'GzipRsyncable edges are at the positions where the sum of the last window bytes of the chunk (or of all of it, while shorter) is a multiple of the modulus, for every window length and modulus of at least 1.',
 ['inputs','configurations'],'every stream, window length and modulus',
 'Two random streams with the default parameters are pinned.',
 ['src/gzip.rs'],[('GzipRsyncableState::add, GzipRsyncableIncr::push','src/gzip.rs')],(),['edges'])
p('C16','MII matches its definition',
 'A MII chunk ends at the w-th consecutive byte that is greater than the byte before it within the chunk; any byte that is not greater starts the count anew, and the first byte of a chunk never counts.',
 ['inputs','histories','configurations'],'every stream and every w of at least 1',
 'One random stream with w = 5 is pinned, in which no chunk happens to start with an increasing run.',
 ['src/mii.rs'],[('MiiIncr::push and reset','src/mii.rs')],[('prev, increment','previous byte, length of the run','src/mii.rs')],['edges'])
p('C17','Pigz-rsyncable matches pigz',
 'Starting each chunk with the hit value, the hash is shifted left by one, combined with the byte by exclusive or and reduced to the configured number of bits; there is an edge wherever it equals the hit value (all bits set but the topmost), for 0 to 31 bits.',
 ['inputs','histories','configurations'],'every stream and every number of bits below 32',
 'One random stream with 12 bits is pinned; the hash states reached on it are a small part of the 4096.',
 ['src/pigz.rs'],[('PigzRsyncableState::add','src/pigz.rs')],[('hash','12 bit (by default) hash','src/pigz.rs')],['edges'])
p('C18','RAM matches its definition',
 'A RAM chunk ends at the first byte that lies more than w bytes after the first byte of the chunk and is at least as large as every one of the first w + 1 bytes of the chunk.',
 ['inputs','histories','configurations'],'every stream and every w',
 'One random stream with w = 8192 is pinned, where the maximum is always 255.',
 ['src/ram.rs'],[('RamState::push','src/ram.rs')],[('i, max_val','bytes before this call, maximum so far','src/ram.rs')],['edges'])
p('C19','ZPAQ matches zpaq',
 'Each chunk starts with hash 0, previous byte 0 and an all-zero order-1 prediction table; each byte c updates the hash to (hash + c + 1) times 314159265 if c was predicted, else times 271828182, modulo 2^32. The chunk ends where the hash is below 2^32 divided by the average and the length is in the range, or where a further byte would exceed the range.',
 ['inputs','histories','configurations'],'every stream, average 2^0 to 2^32 and range of sizes (included, excluded and open bounds)',
 'Two random streams with one average are pinned; the limits are not reached and only one kind of range is used.',
 ['src/zpaq.rs','src/range.rs'],[('ZpaqHash::feed, Zpaq::split_here','src/zpaq.rs')],[('hash, last_byte, predicted_byte, idx','hash state of the chunk and its length','src/zpaq.rs')],['edges'])
p('C20','zstd-rsyncable matches zstd',
 'Once 32 bytes have been seen, and for every byte after those, there is an edge where the polynomial rolling hash of the last 32 bytes (multiplier 0xCF1BBCDCB7A56463, each byte increased by 10) has its low bits all set, the number of bits being 20 plus the base 2 logarithm of the target section size in MiB. The window carries on across edges, so edges may follow one another closely.',
 ['inputs','histories','configurations'],'every stream and every target section size',
 'One stream with one edge in 2 MiB is pinned; edges are so rare in random data that what happens after an edge is never seen.',
 ['src/zstd.rs'],[('ZstdState::append / rotate / at_split','src/zstd.rs'),('offset and discard handling','Zstd::find_chunk_edge')],[('window, window_offs, window_full, offset','last 32 bytes','src/zstd.rs')],['edges'])
p('C21','Constructors and defaults give the documented parameters',
 'Every constructor takes effect as documented, for each of its argument values: the zpaq presets (average 2^n: minimum average/16 and maximum 127/16 KiB per... see quantifier; from a maximum: average a quarter and minimum 1/64 of it), the zstd section size, gear average, pigz bits, and the defaults (bup window 64, BuzHash nom 67/2^12/2^24, FastCDC 2/8/64 KiB, gear 8 KiB, gzip 8192/4096, MII 5, pigz 12, zpaq 64 KiB with 4 to 508 KiB, zstd 8 MiB).',
 ['configurations','inputs'],'every argument value of every parameter-deriving constructor (within stated bounds), observed through the edges it leads to',
 'Only zstd default, one zpaq preset and a few default configurations are looked at, none of them where their limits matter.',
 ALL[1:],[('with_* constructors and Default impls','each module')],(),['edges on streams made to tell neighbouring parameter values apart'])
p('C22','Equal values are interchangeable',
 'Wherever the library provides equality on configurations, search states or incremental chunkers, two values that compare equal behave the same on all further data, and two values constructed the same way and fed the same data compare equal.',
 ['inputs','histories','configurations'],'every pair of configurations and of states reached by any two streams',
 'No test compares configurations or states.',
 ['src/bup.rs','src/buzhash.rs','src/fastcdc.rs','src/gear.rs','src/gzip.rs','src/pigz.rs','src/ram.rs','src/zpaq.rs','src/zstd.rs'],[('derived and hand-written PartialEq impls','each module')],(),['== and subsequent edges'])
p('C23','Range helpers agree with the meaning of ranges',
 'For every kind of range (included, excluded, open bounds) and every value: the value is under the minimum exactly if it is below every element allowed by the lower bound, exceeds the maximum exactly if it is above every element allowed by the upper bound, is contained exactly if neither, and converting a range to a pair of bounds preserves which values it contains.',
 ['inputs','configurations'],'every pair of bounds and every value of a bounded integer domain',
 'A single doc test exists, for the copy of one bound.',
 ['src/range.rs'],[('RangeExt, bound_cloned','src/range.rs')],(),['RangeExt methods vs std RangeBounds::contains'])
p('C24','Edges are the same in every build and on every platform',
 'A configuration applied to a stream gives the same edges, through either interface and the slice iterators, whether the library is built with or without debug assertions and overflow checks, for 32-bit or 64-bit machines, little- or big-endian ones; parameters given as u64 mean the same everywhere.',
 ['inputs','configurations','histories'],'every stream, schedule and configuration (sizes of windows within the address space), every build profile and target platform',
 'The tests run in one build (unoptimised, debug assertions on) on one 64-bit little-endian machine.',
 ALL[1:],[('arithmetic on lengths, hashes and limits','each module'),('Zpaq::fragment_ave_from_max','src/zpaq.rs')],(),['edges in builds of different profiles and targets'])
p('C25','Memory use is bounded by the configuration',
 'An incremental chunker, a search state or a slice iterator never holds more memory than a small multiple of the configured window plus a constant, however long the stream, whatever its content and however it is divided into calls; no call needs more than that temporarily, however much data it is given; and dropping any of them gives all of it back.',
 ['inputs','histories','configurations'],'every stream, every division into calls, every configuration (within stated bounds)',
 'No test looks at memory; what accumulates does so over long streams without edges, or per edge, or per call.',
 ALL[1:],[('incremental chunkers and search states','each module'),('IterSlices, IterSlicesStrict','src/lib.rs')],[('window / buf','bytes of the window','src/gzip.rs, src/buzhash.rs, src/bup.rs, src/zstd.rs')],['bytes allocated and freed by each call'])
p('C26','Data is examined once',
 'Every byte of a stream is read a constant number of times in all, however the stream is cut into calls and however often calls are repeated: the search resumes where it stopped. The work of a call is at most proportional to the data that is new to it (plus, at an edge, to the window), never to the length of the window, chunk, stream or buffer so far. The slice iterators find each slice only when asked for it.',
 ['inputs','histories','configurations'],'every stream, every division into calls, repeated and empty calls, every configuration (within stated bounds)',
 'No test looks at the work done; the results are the same.',
 ALL[1:],[('find_chunk_edge (offset in the search state)','each module'),('push','each module'),('Iterator::next','src/lib.rs')],[('offset','examined part of the buffer','src/bup.rs, src/buzhash.rs, src/gzip.rs, src/zstd.rs')],['reads of each byte of the data; basic blocks executed and bytes moved by each call'])
for x in P:
    if x['id']=='C21':
        x['statement']='Every constructor takes effect as documented for each argument value: zpaq presets (average 2^n bytes with minimum 1/16 and maximum 127/16 of it; or, from a maximum, an average of a quarter and a minimum of 1/64 of it), zstd section size, gear average, pigz bits. The defaults are: bup window 64; BuzHash nom window 67, mask 2^12-1, maximum 2^24; FastCDC 2/8/64 KiB; gear 8 KiB; gzip 8192/4096; MII 5; pigz 12 bits; zpaq 64 KiB with 4 to 508 KiB; zstd 8 MiB.'
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
