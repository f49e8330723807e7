import json
ALL3=["v3/buffer.generated.go","v3/minibuf.generated.go"]
ALL=["v1/buffer.go","v1/minibuf.go","v2/buffer.go","v2/minibuf.go"]+ALL3
BUF=["v1/buffer.go","v2/buffer.go","v3/buffer.generated.go"]
MINI=["v1/minibuf.go","v2/minibuf.go","v3/minibuf.generated.go"]
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["observe_at"]=obs or ["public API: results, Bytes, capacity and offset getters"]
    P.append(d)
p("C01","Writes store the exact standard encoding and change nothing else",
 "On every buffer type of v1, v2 and v3, writing bytes or any number of 16/32/64-bit unsigned integers (and, in v3, signed integers and floats) in range stores, starting at the given offset (or the cursor), exactly the consecutive little- or big-endian two's-complement / IEEE-754 bit patterns of the elements in order, and the call succeeds (v1: with any binary.ByteOrder of that order; data that overlaps the buffer's own storage excepted). Every byte of the buffer outside the written range keeps its value, however the buffer was built, grown, truncated or reset before.",
 ["inputs","histories"],"every buffer content and size (also larger than 2^31 and 2^32 bytes), offset, element type, byte order, element count including none, element value including NaN payloads, after any history of other calls",
 "Tests write one or two small constants at offset 0 of a buffer of at most 8 bytes; the lanes, counts, offsets and values are never varied, so a wrong lane or a fast path for longer slices goes unseen.",
 ALL,[("write loops","*write* / Write* methods of Buffer and MiniBuffer"),("v1 type dispatch","v1 writeComplex")])
p("C02","Reads decode exactly the bytes stored in the buffer",
 "On every buffer type of v1, v2 and v3, reading n bytes or n 16/32/64-bit integers (and, in v3, floats) from an in-range offset (or the cursor) succeeds and yields exactly n elements, each the standard little- or big-endian decoding of the corresponding bytes, bit for bit (NaN payloads and signs included). Reading changes no byte of the buffer, and a MiniBuffer read changes nothing in the caller's slice past the n elements it was asked for.",
 ["inputs","histories"],"every buffer content and size (also larger than 2^31 and 2^32 bytes), offset, element type, byte order and count including none, after any history of other calls",
 "Tests decode one or two constants from offset 0; most values, offsets, counts and histories are never tried.",
 ALL,[("read loops","*read* / Read* methods"),("v1 type dispatch","v1 readComplex")])
p("C03","Single-bit operations address exactly the requested bit",
 "Bit k of a buffer is bit 7-(k mod 8) of byte k/8. On every buffer type, reading, setting, clearing or flipping one in-range bit (at an offset or at the bit cursor) succeeds, reports or changes precisely that bit (a read yields 0 or 1) and leaves every other bit of the buffer as it was.",
 ["inputs","histories"],"every buffer content and size (also with more than 2^31 and 2^32 bits or bytes), bit offset and new bit value, after any history of other calls",
 "Tests touch one bit of one byte.",
 ALL,[("shift and mask","readbit/setbit/flipbit, ReadBit/SetBit/ClearBit/FlipBit")])
p("C04","Bit fields of 0 to 64 bits are read and written MSB first",
 "On every buffer type, for any in-range bit offset and any n from 0 to 64, a multi-bit read yields the n bits as an unsigned number with the first bit most significant, and a multi-bit set stores the low n bits of its value the same way (higher bits of the value are ignored). A set changes no bit outside the n addressed ones, a read changes none, and reading back a field that was just set yields the value modulo 2^n.",
 ["inputs","histories"],"every buffer content and size, bit offset (aligned or not), width 0..64 and 64-bit value, at an explicit offset or at the bit cursor, after any history of other calls",
 "Tests read and set one field of a few bits in one byte.",
 ALL,[("bit loops","readbits/setbits, ReadBits/SetBits")])
p("C05","Clear-all, set-all and flip-all affect every bit of the buffer",
 "On every buffer type and for a buffer of any size, including empty, clearing all bits makes every byte 0, setting all bits makes every byte 255 and flipping all bits replaces every byte by its complement. The calls succeed and change neither the size nor the cursors.",
 ["inputs","histories"],"every buffer size and content and cursor position, after any history of other calls",
 "Tests use one buffer of one to four bytes.",
 ALL,[("fill loops","ClearAllBits/SetAllBits/FlipAllBits")])
p("C06","Next-style calls act at the cursor and advance it by exactly what they moved",
 "Every in-range cursor-relative call does what its explicit-offset counterpart does at the current byte (or bit) cursor and then advances that cursor by exactly the number of bytes (or bits) transferred. No other in-range read, write or bit call moves either cursor, and a call on the byte cursor never moves the bit cursor or the reverse.",
 ["inputs","histories"],"every sequence of calls, element type, count including none, and cursor position, on every buffer type of v1, v2 and v3",
 "Tests make one cursor-relative call on a fresh buffer, mostly with a count of one.",
 ALL,[("Next methods","*Next methods call the explicit-offset method, then the seek method")],[("off","byte cursor","Buffer, MiniBuffer"),("boff","bit cursor","Buffer, MiniBuffer")])
p("C07","Seek, align and remaining-count arithmetic is exact",
 "Seeking sets the byte or bit cursor exactly to the given position, or moves it by exactly the given amount when relative; aligning the bit cursor sets it to 8 times the byte cursor, and aligning the byte cursor sets it to the bit cursor divided by 8, rounded down, for a non-negative cursor. The 'after' queries report capacity minus position minus one, for the cursor or for an explicit position, in bytes or bits. Each call changes only the one cursor it names and nothing else.",
 ["inputs","histories"],"every cursor value and argument (negative and far out of range included) that does not overflow 64 bits, on every buffer type, after any history",
 "Tests seek to one or two small positions.",
 ALL,[("seek/align/after","seek, seekbit, alignbit, alignbyte, after, afterbit (v1, v2); SeekByte, SeekBit, AlignBit, AlignByte, AfterByte, AfterBit (v3)")])
p("C08","A checked Buffer accepts exactly the in-range accesses",
 "On the Buffer type of v1, v2 and v3, a byte, element or bit access that lies entirely inside the buffer is never refused, and one that starts before position 0 or extends past the current size (not past spare capacity) always panics instead of returning. The panic value equals the package's exported error for the case: overread or underread for reads, overwrite or underwrite for writes and bit changes (either one when both ends are out of range), also for offsets and counts near the 64-bit limits; it is an error with a non-empty message distinct from the other exported errors.",
 ["inputs","histories"],"every buffer size, spare capacity, offset and non-negative count up to the 64-bit limits, element type, cursor position, after any history of resizes and seeks",
 "Tests try one far-out and one negative offset per method on a 4-byte buffer; the exact edges, element sizes, spare capacity and overflow are not tried.",
 BUF+["v1/errors.go","v2/errors.go","v3/errors.go","generation/complex.go"],[("bounds checks","the two checks at the top of each access method"),("exported errors","errors.go")],[("cap/bcap","cached size in bytes and bits","Buffer")])
p("C09","A rejected call leaves the buffer unchanged and usable",
 "When a call on a Buffer of v1, v2 or v3 panics because of its arguments, the contents, size and both cursors are as before the call, and later calls (also from other goroutines) work as if it had never been made: in v1 and v2 the buffer's lock is not left held. The one exception is a multi-bit set that runs off the end, which may already have stored the leading bits that were in range.",
 ["fault_sequences","histories"],"every rejected call (out of range at either end, 64-bit overflow, invalid bit, invalid size, negative count, mismatched type), interleaved anywhere in a history of valid calls",
 "Tests stop at the expected panic and never look at the buffer again.",
 BUF,[("check before mutate","bounds checks precede locking and storing"),("deferred unlock","v1/v2 Buffer methods")],[("Mutex","v1/v2 buffer lock","Buffer")])
p("C10","Invalid arguments are refused with the documented error",
 "On every type of v1 and v2, setting an in-range bit to a value other than 0 or 1 panics with the invalid-bit error. In v1, complex reads and writes whose size is not 1, 2, 4 or 8 panic with the invalid-integer-size error. Growing a Buffer (v1, v2, v3) or truncating a v3 Buffer by a negative count panics with the invalid-byte-count error; truncating a v3 Buffer by more than its size, or writing v1 data whose type does not match the given size, also panics; in all these cases the contents, size and cursors are unchanged.",
 ["inputs","histories"],"every invalid bit value, integer size and negative or excessive count, on any buffer state",
 "Tests try one invalid value per method and never look at the state afterwards.",
 ["v1/buffer.go","v1/minibuf.go","v2/buffer.go","v2/minibuf.go","v3/buffer.generated.go"],[("argument checks","setbit default case, readComplex/writeComplex default case, Grow/grow, TruncateLeft, TruncateRight")])
p("C11","Growing adds zero bytes, truncating and resetting drop exactly what they say",
 "Growing any buffer by n >= 0 keeps every existing byte, appends exactly n bytes that are all zero (whatever the storage held earlier) and moves no cursor. Truncating a v3 buffer on the left or right by n drops exactly the first or last n bytes, keeps the rest in order and moves no cursor. Resetting (v2, v3) leaves an empty buffer with both cursors at 0.",
 ["inputs","histories"],"every content, size, spare capacity of the initial slice, count, and every order of grow, truncate, reset and write calls, including regrowing into space used before",
 "Tests grow or truncate a fresh buffer once; regrowing after a truncation or reset, which can reuse dirty storage, is not tried.",
 ALL,[("Grow/grow","append of zeros (v1, v2), reuse of spare capacity or reallocation (v3)"),("TruncateLeft/TruncateRight/Reset","v3; Reset also v2")],[("buf","storage, whose spare capacity may hold old data","Buffer, MiniBuffer")])
p("C12","Reported size always matches the contents",
 "After any sequence of successful or (on a Buffer) rejected calls, the byte capacity equals the length of the slice the buffer exposes, the bit capacity is eight times that, and the size changes only by growing, truncating and resetting. Refreshing changes nothing observable, and calling any getter twice gives the same answer.",
 ["histories"],"every sequence of calls on every buffer type",
 "Tests look at a capacity after one call on a fresh buffer.",
 ALL,[("refresh/Refresh","recomputes the cached sizes after each resize")],[("cap/bcap","cached size","Buffer, MiniBuffer")])
p("C13","A new buffer holds its slices in order and exposes live storage",
 "A buffer created from any number of slices (none, nil and empty ones included) contains their concatenation in order, with both cursors at 0. Creation modifies none of the slices, and when there are two or more, later calls on the buffer never change them nor does changing them change the buffer. The slice the buffer exposes is its live storage: after any history, a change made through it is seen by later reads and the reverse.",
 ["inputs","histories"],"every list of slices of any length and spare capacity, and any later history of calls",
 "Tests create from no, one or two tiny slices and compare once.",
 ALL,[("NewBuffer/NewMiniBuffer","append loop or adoption of the single slice"),("Bytes","returns the storage")])
p("C14","Buffers, arguments and decoded results are independent of each other",
 "Buffers created from separate slices never influence one another: any interleaving of calls on them gives each the results and contents it would have alone. Writes neither modify nor retain the slice passed in, and decoded multi-byte elements are copies: later changes to the buffer do not change them and changing them does not change the buffer.",
 ["histories"],"every interleaving of calls on two or three buffers of any type, and every later mutation of arguments and results",
 "Tests use one buffer at a time and drop arguments and results at once.",
 ALL,[("per-instance state","struct fields; typed reads allocate (Buffer) or fill the caller's slice (MiniBuffer)")])
p("C15","Requests for nothing succeed and change nothing",
 "Writing an empty slice, reading zero bytes or elements at an offset from 0 up to and including the size, reading (yielding 0) or setting zero bits at such a bit offset, growing by zero, truncating by zero and filling an empty buffer all succeed on every buffer type, through explicit-offset and cursor-relative calls alike. They change no byte, no size and no cursor, and leave no lock held.",
 ["inputs","histories"],"every operation, buffer type, buffer size including 0 and offset including the very end, after any history",
 "No test makes a zero-size request.",
 ALL+["generation/complex.go"],[("zero guards","guards in front of the run-at-least-once loops")])
p("C16","All buffer variants agree on every valid history",
 "For any sequence of valid in-range calls that they have in common, the Buffer and MiniBuffer of one version, and the types of v1, v2 and v3, produce the same results, contents, sizes and cursors.",
 ["histories","configurations"],"every sequence of in-range calls from the shared operation set, every pair of the six buffer types",
 "Each type has its own tests; nothing compares them.",
 ALL,[("parallel implementations","six hand-written or generated copies of the same operations")])
p("C17","v1/v2 Buffer: concurrent offset-addressed calls are race-free and atomic",
 "On the Buffer type of v1 and v2, any number of goroutines may at the same time make in-range calls that address an explicit position (byte, integer and single-bit reads and writes) as well as whole-buffer fills, seeks and aligns: there is no data race and no deadlock, and no call leaves the lock held. Each such call except a multi-bit one or a raw byte-slice read is atomic: concurrent flips and relative seeks are never lost, an integer write is never seen torn, and fills never interleave with them. Explicit-position calls that are refused because of their arguments may be among them and disturb nothing (a multi-bit set that runs off the end excepted).",
 ["schedules"],"every set of 2 to 8 goroutines making such calls on overlapping positions, and every interleaving of them",
 "No test starts a goroutine.",
 ["v1/buffer.go","v2/buffer.go"],[("embedded mutex","each internal operation locks around its access to the contents")],[("Mutex","buffer lock","Buffer")])
p("C18","Concurrent readers never disturb each other",
 "On every buffer type of v1, v2 and v3, any number of goroutines may at the same time make in-range explicit-position reads, 'after' queries and getter calls (on a Buffer also explicit-position calls that are refused, multi-bit sets excepted) on a buffer nobody is changing: there is no data race, and each gets the result it would get alone.",
 ["schedules"],"every buffer content, every set of 2 to 8 goroutines making read-only calls",
 "No test starts a goroutine.",
 ALL,[("pure reads","read methods store nothing in the buffer")])
p("C19","v1/v2 MiniBuffer works under the caller's own lock",
 "The v1 and v2 MiniBuffer leave locking to the caller: any call made while the caller holds the buffer's lock completes without blocking and leaves the lock held, and any call made while it is free leaves it free, rejected calls included. Goroutines that each hold that lock around their calls therefore never race, deadlock or lose an update, cursor-relative calls included.",
 ["schedules","histories"],"every sequence of calls with the lock held or free, and goroutines that lock around groups of calls",
 "No test ever takes the lock.",
 ["v1/minibuf.go","v2/minibuf.go"],[("embedded mutex never used internally","MiniBuffer methods")],[("Mutex","lock owned by the caller","MiniBuffer")])
p("C20","MiniBuffer results depend only on the buffer, not on what out held",
 "An in-range MiniBuffer call that stores its result through a pointer stores the same result whatever the pointed-to variable or slice elements held before, and leaves the part of a longer destination slice beyond the requested elements as it was. Repeating the same explicit-position read with the same variable gives the same result again.",
 ["inputs","histories"],"every previous value of the destination, every result-storing call, every in-range argument, on the MiniBuffer of v1, v2 and v3",
 "Tests always read into a fresh zero variable.",
 MINI,[("out parameters","methods with an out pointer")])
p("C21","Every generator directive expands to correct codec methods",
 "For each valid directive (Buffer or MiniBuffer, read or write, unsigned/signed integer or float, 16/32/64 bits, little or big endian), wherever it stands in a template and whatever other directives surround it, the generator emits an explicit-offset method and a cursor-relative method of the documented names. Compiled, these encode or decode exactly per that type and byte order, advance the cursor by exactly the size, and in the Buffer type refuse exactly the out-of-range accesses with the overread/underread/overwrite/underwrite error.",
 ["programs","inputs"],"every selection and order of valid directives in a template, and every content, offset, count and value passed to the generated methods",
 "The generator has no tests; the tests of v3 run the committed generated files, not the generator.",
 ["generation/complex.go","v3/_buffer.go","v3/_minibuf.go"],[("GenerateComplex","code builder per directive")],obs=["compiled output of the generator command run on permuted copies of the v3 templates"])
p("C22","The generator changes nothing in a template but its directives",
 "Every line of a template that is not a well-formed directive line is carried to the output unchanged and in order, including lines that merely resemble a directive. Each valid directive is replaced by its two methods independently of its surroundings, so the output for a concatenation of templates is the concatenation of their outputs; a directive with an invalid argument is replaced by comment text only. Running the generator twice on the same input gives the same output.",
 ["programs","inputs"],"every template text: any mixture of ordinary lines, near-miss lines, valid and invalid directives, any number of files",
 "The generator has no tests.",
 ["generation/complex.go"],[("directive regexp and replacement","GenerateComplex")],obs=["output files of the generator command"])
p("C23","The generator command writes exactly the outputs and touches no other file",
 "Run on a directory, the generator command creates or overwrites, for each regular file there named with a leading underscore and the .go suffix, the one file named without that underscore and with .generated.go, whose content depends only on that template (an older, longer or shorter output leaves nothing behind). Templates, other files and subdirectories stay byte-for-byte as they were, a repeated run changes nothing, and without a valid generation mode, or given something that is not a directory, it writes no file. A template that cannot be read or an output that cannot be written (its name taken by a directory, no permission) does not keep the other outputs from being written.",
 ["inputs","histories"],"every directory population (templates, look-alike names, subdirectories, stale outputs of any length) every sequence of runs and template edits, and every choice of files that cannot be read or written",
 "The generator has no tests.",
 ["generation/main.go"],[("file selection and naming","main"),("output truncation","os.OpenFile flags in main")],obs=["directory contents before and after the generator command"])
p("C24","Regenerating v3 from its templates reproduces the shipped behaviour",
 "Running the generator in this tree on the v3 templates succeeds, and the resulting package compiles, has the same exported buffer methods as the shipped v3, and behaves identically to it for every history of calls: same results, panics, contents, sizes and cursors.",
 ["programs","histories"],"every history of valid and (on Buffer) rejected calls, run on both the regenerated and the shipped package",
 "The tests compile the committed generated files only; a template or generator that no longer matches them breaks the next regeneration unnoticed.",
 ["generation/complex.go","generation/main.go","v3/_buffer.go","v3/_minibuf.go"]+ALL3,[("templates plus generator","v3/Makefile target")],obs=["both packages linked into one harness"])
p("C25","Calls stay inside the memory they were given",
 "A call on any buffer type of v1, v2 or v3 that leaves the buffer's size alone (an in-range read, write or bit call, a fill, seek, align, query or Refresh, and on a Buffer a refused one) stores only into the addressed contents and, on a MiniBuffer, the out variable or the requested elements of the destination. Bytes that merely lie next to the contents, the argument or the destination (spare capacity, the rest of a larger array, the slice an out variable held) are neither changed, not even for a moment, nor read, and results do not depend on them. Reads, seeks, queries, refused calls and creation store nothing in the buffer's storage or the slices given, and writes nothing in their argument, so those may be in read-only memory.",
 ["inputs","histories"],"every buffer content, size, spare capacity and surroundings, every argument and destination and their surroundings, after any history of other calls",
 "Tests use slices that fill their arrays and never look beyond them, nor at memory that cannot be written.",
 ALL,[("loop bounds over the storage","fills, bit loops, write loops"),("unsafe float conversions","v3 Write/Read F32/F64"),("slice expressions on the storage","ReadBytes, WriteBytes")],obs=["bytes around storage, arguments and destinations","memory faults (mapped pages, unmapped or read-only)"])
p("C26","Calls cost in proportion to what they move and leave nothing behind",
 "On every buffer type of v1, v2 and v3, however large the buffer is: a read, write, bit call, seek, align or query (and on a Buffer a refused one, whatever it asks for) allocates no more than a fixed small amount of memory plus a small multiple of the elements it moves, and looks at no part of the storage far from the addressed bytes. Making calls again and again, refused ones and creation of other buffers included, accumulates neither memory (beyond the contents of the buffer) nor goroutines.",
 ["inputs","histories"],"every buffer size, position, count, and every sequence of calls however often it is made",
 "Tests use buffers of a few bytes and make each call once; the benchmarks have no verdict.",
 ALL,[("access loops bounded by the count","read/write/bit methods"),("no package-level state","all methods")],obs=["heap allocation per call, pages of the storage brought into memory, memory and goroutines in use afterwards"])
p("C27","v1/v2 Buffer: whoever holds the embedded lock has the contents to itself",
 "On the Buffer type of v1 and v2, while a goroutine holds the buffer's embedded lock, a call made by another goroutine changes nothing until the lock is released, and its results and effects are those of the same call made after the release, on the contents as the holder left them (a raw byte-slice read is a view; a refused call may be refused at once). Changes the holder makes through the exposed slice are therefore never lost or seen half done, cursor-relative, multi-bit and growing calls included, and they race with no call.",
 ["schedules","histories"],"every buffer content, every call and every change of the contents made under the lock while the call is under way, after any history of other calls",
 "No test starts a goroutine or takes the lock.",
 ["v1/buffer.go","v2/buffer.go"],[("lock taken before the contents are looked at","readbit/setbit/flipbit, fills, read*/write*, grow, reset")],[("Mutex","guards the contents and cursors","Buffer")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
