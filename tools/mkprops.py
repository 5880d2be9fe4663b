#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single editable source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

SB = "include/strigi/streambase.h"; BS = "include/strigi/bufferedstream.h"; SBUF = "include/strigi/streambuffer.h"

prop("C01", "Reads deliver the stream's bytes in order, at the position, within bounds",
 "For every kind of stream, a read that returns n>0 items hands out exactly the n items of the stream's content that start at the position before the call, and advances the position by n. At least the requested minimum (1 or more) is delivered unless the end of the stream or an error cuts it short, never more than the maximum is delivered when maximum >= minimum, and a maximum below the minimum means no upper limit. The order in which reads, skips and resets are mixed never changes which item is delivered at which position.",
 ["inputs", "histories"], "every content, every source that feeds it, and every sequence of read(min,max)/skip/reset calls with min >= 1",
 "The tests read a few fixed files with a handful of call patterns; the guarantee is about every interleaving of calls with every alignment of the requests to the internal buffers.",
 [SB, BS, SBUF, "include/strigi/stringstream.h", "lib/fileinputstream.cpp", "lib/mmapfileinputstream.cpp", "lib/skippingfileinputstream.cpp", "lib/subinputstream.cpp", "lib/dataeventinputstream.cpp", "lib/stringterminatedsubstream.cpp"],
 [("buffered read over a moving window", BS), ("buffer compaction and growth", SBUF), ("direct sources", "include/strigi/stringstream.h, lib/mmapfileinputstream.cpp, lib/skippingfileinputstream.cpp")],
 ["return value of read, bytes behind the returned pointer, position() after every call"],
 [("position", "offset of the next item", SB), ("buffer window", "items retained for reset and read-ahead", SBUF)])

prop("C02", "End of stream is signalled once, at the true end, and then the size is known",
 "A stream reports the end-of-stream status only when its position equals its length; from then on its size is known and equals that length, and reads return -1 until it is repositioned. Before the end, the size is either reported as unknown (-1) or is the declared size, and it never changes once known. A read on a stream that is not at its end and has not failed never returns 0 or -1 while content remains.",
 ["inputs", "histories"], "every content length (including empty and exact multiples of internal buffer sizes) and every sequence of read/skip/reset calls",
 "Off-by-one behaviour at the end depends on content length versus buffer size and on the last call made; tests use a few lengths only.",
 [SB, BS, "include/strigi/stringstream.h", "lib/subinputstream.cpp", "lib/mmapfileinputstream.cpp", "lib/skippingfileinputstream.cpp", "lib/fileinputstream.cpp"],
 [("end detection after the buffer drains", BS), ("size set at end", BS)], ["status(), size(), position() after every call"])

prop("C03", "A stream can be rewound to anything it has just read",
 "After a successful read, repositioning to any position within the segment just read (from its first item to just past its last) succeeds, returns the requested position, and leaves the returned data pointer valid; the items re-read afterwards are identical. Any reposition returns the position the stream then has, that position lies within the stream, and a stream that has been moved back before its end is readable again.",
 ["inputs", "histories"], "every read followed by any chain of resets into the last segment, on every stream type, including after the end was reached",
 "The tests rewind to a few fixed points; retention of the window depends on buffer compaction, growth and how a filter buffers its parent.",
 [SB, BS, SBUF, "lib/subinputstream.cpp", "lib/dataeventinputstream.cpp", "lib/stringterminatedsubstream.cpp", "lib/skippingfileinputstream.cpp", "include/strigi/stringstream.h"],
 [("window retained in the buffer", BS), ("delegation to the parent with offset", "lib/subinputstream.cpp")], ["return value of reset, position(), status(), bytes behind the last read pointer, subsequent reads"])

prop("C04", "Skipping is equivalent to reading and discarding",
 "Skipping k >= 0 items advances the position by exactly the number of items it reports having skipped, never more than k, and fewer than k only if the end of the stream or an error is met; a negative report, at the end or after an error, means nothing was skipped. Whatever is read afterwards is what would have been read had the same number of items been read and discarded. A skip of 0 changes nothing.",
 ["inputs", "histories"], "every skip length (including beyond the end and larger than any buffer) at every position, on every stream type, in any mix with reads and resets",
 "Each stream type implements skipping its own way (buffer, seek, parent); tests skip by a few sizes from a few places.",
 [SB, BS, "include/strigi/stringstream.h", "lib/subinputstream.cpp", "lib/mmapfileinputstream.cpp", "lib/skippingfileinputstream.cpp", "lib/dataeventinputstream.cpp"],
 [("skip by buffered reads", BS), ("skip by moving an index", "include/strigi/stringstream.h, lib/mmapfileinputstream.cpp"), ("skip delegated to the parent", "lib/subinputstream.cpp")], ["return value of skip, position(), subsequent reads"])

prop("C05", "Errors are reported and sticky; damaged input never looks like a clean end",
 "If a stream's source fails, the stream or filter over it delivers only a prefix of the true content and ends in the error status with a non-empty message, never in the end-of-stream status; the same holds for a compressed, encoded or windowed stream whose input ends before the data is complete. In the error status every further read returns -2, the status stays error and delivers no data.",
 ["inputs", "fault_sequences"], "every position at which the underlying source can fail or be cut short, every filter, every subsequent call sequence",
 "Tests never inject faults and never truncate compressed data at each byte.",
 [BS, "lib/gzipinputstream.cpp", "lib/bz2inputstream.cpp", "lib/lzmainputstream.cpp", "lib/subinputstream.cpp", "lib/base64inputstream.cpp", "lib/inputstreamreader.cpp", "lib/encodinginputstream.cpp", "lib/dataeventinputstream.cpp", "lib/fileinputstream.cpp"],
 [("error status checked on every read", BS), ("parent error propagated by each filter's refill", "lib/*inputstream.cpp")], ["status(), error(), return values after a fault"])

prop("C06", "What a filter or archive yields does not depend on how its source delivers bytes",
 "The content, entry list, metadata and final outcome obtained from any filter or archive decoder depend only on the bytes of the underlying stream, not on how many bytes the source returns per read (anywhere between the requested minimum and maximum), whether the source knows its size, whether it reports the end together with its last bytes or only on the next read, or how much of what it has already delivered it keeps for rewinding beyond the guaranteed segment. How much is delivered before an error is not determined, nor, for compressed data cut after the part its content needs, whether the missing rest is noticed.",
 ["inputs", "schedules"], "every legal chunking schedule of the source, for every filter and archive format that accepts a forward-only source",
 "Tests feed every decoder from whole files or one string, i.e. one schedule.",
 [BS, "lib/gzipinputstream.cpp", "lib/bz2inputstream.cpp", "lib/lzmainputstream.cpp", "lib/base64inputstream.cpp", "lib/tarinputstream.cpp", "lib/zipinputstream.cpp", "lib/arinputstream.cpp", "lib/cpioinputstream.cpp", "lib/rpminputstream.cpp", "lib/mailinputstream.cpp", "lib/sdfinputstream.cpp", "lib/inputstreamreader.cpp", "lib/encodinginputstream.cpp"],
 [("minimum/maximum requests to the source and resets to resynchronise", "lib/*inputstream.cpp")], ["all entries/bytes/outcomes under different source schedules"])

prop("C07", "A sub-stream exposes exactly its window of the parent",
 "A sub-stream of limit N over a parent positioned at offset o delivers exactly the parent's bytes o..o+N-1 and then ends with size N; without a limit it delivers everything to the parent's end. It never consumes the parent beyond the window: after use, parent position = o + sub-stream position. If the parent ends before the window is complete the sub-stream ends in error, not in a clean end.",
 ["inputs", "histories"], "every offset, limit and parent, every read/skip/reset sequence on the sub-stream including requests beyond the window, nested sub-streams",
 "Tests cover one offset and limit per file with a fixed call pattern.",
 ["lib/subinputstream.cpp", "include/strigi/subinputstream.h"],
 [("limit applied to min and max, error on short parent", "lib/subinputstream.cpp")], ["bytes, position, size, status of the sub-stream and position of the parent after every call"],
 [("offset", "parent position at creation", "include/strigi/subinputstream.h")])

prop("C08", "A terminated sub-stream ends exactly before the first terminator",
 "A sub-stream defined by a terminator string delivers exactly the parent's bytes up to, not including, the first occurrence of the terminator, wherever read or buffer boundaries fall relative to it, or everything up to the parent's end if it does not occur. Advancing past it leaves the parent just after the terminator, so successive sub-streams split the parent as splitting its content on the terminator would.",
 ["inputs", "histories", "schedules"], "every content, every non-empty terminator (including self-overlapping ones), every chunking, every read/skip/reset sequence",
 "A terminator straddling a boundary or overlapping with a partial match needs specific alignments which the tests do not have.",
 ["lib/stringterminatedsubstream.cpp", "include/strigi/stringterminatedsubstream.h", "lib/kmpsearcher.cpp"],
 [("look-ahead by terminator length and search of the window", "lib/stringterminatedsubstream.cpp"), ("advance past the terminator", "lib/stringterminatedsubstream.cpp")], ["bytes delivered, status, parent position after advancing"])

prop("C09", "A data listener sees every byte exactly once and in order",
 "Until the listener declines further data, a stream with a data listener passes to it, in order and exactly once each, the bytes of its input, regardless of how the consumer reads, skips, rewinds or re-reads; at any time what the listener has received is a prefix of the content that covers at least everything the consumer has consumed or skipped. When the stream is finished the listener has received the entire content and then exactly one end notification.",
 ["inputs", "histories"], "every content and every read/skip/reset/finish sequence over every kind of input",
 "The tests do not rewind and re-read around partially delivered data in all combinations.",
 ["lib/dataeventinputstream.cpp", "include/strigi/dataeventinputstream.h"],
 [("high-water mark of delivered data", "lib/dataeventinputstream.cpp"), ("finish by skipping the rest", "lib/dataeventinputstream.cpp")], ["listener callbacks between stream calls"],
 [("total read", "number of bytes already passed to the listener", "include/strigi/dataeventinputstream.h")])

prop("C10", "Substring search finds the first occurrence",
 "Searching a text for a non-empty query returns the first position at which the query occurs in the text, and no match exactly when it does not occur, for all byte values including embedded zero and high bytes, and never examines bytes outside the text. The searcher gives the same answers after being reused with a new query.",
 ["inputs"], "every query and text over the byte alphabet, including periodic queries, texts shorter than the query, and single-byte queries",
 "Skip-table errors show only for particular combinations of periodicity and mismatch position.",
 ["lib/kmpsearcher.cpp", "include/strigi/kmpsearcher.h"], [("shift tables", "lib/kmpsearcher.cpp")], ["returned match pointer"])

prop("C11", "Decompression yields exactly the compressed data",
 "For every valid gzip, zlib, raw-deflate, bzip2 or lzma stream (lzma in the alone format with the customary parameters), the decompressing stream delivers exactly the original data followed by end-of-stream, independently of read sizes, chunking, rewinds and buffer boundaries. After a gzip or bzip2 stream ends, the underlying stream is positioned exactly at the first byte after the compressed data. Input without a valid header is rejected with an error.",
 ["inputs", "histories", "schedules"], "every data and compression level/parameters, every read pattern, every source chunking",
 "Tests decompress one small file each.",
 ["lib/gzipinputstream.cpp", "lib/bz2inputstream.cpp", "lib/lzmainputstream.cpp"], [("refill/inflate loop", "lib/gzipinputstream.cpp, lib/bz2inputstream.cpp, lib/lzmainputstream.cpp"), ("rewind of unread input at the end", "lib/gzipinputstream.cpp, lib/bz2inputstream.cpp")], ["delivered bytes, end status, position of the underlying stream"])

prop("C12", "Base64 decoding is the inverse of encoding",
 "Decoding base64 text yields exactly the bytes that were encoded, for every length modulo 3 and wherever line breaks or other characters outside the alphabet are interspersed; decoding stops at padding. The one-shot decoder gives the same result for text without interspersed characters, and the result does not depend on buffer or chunk boundaries.",
 ["inputs", "schedules"], "every byte sequence, every placement of line breaks and junk characters, every chunking",
 "Tests decode one fixed text; boundary placement inside a 4-character group is not exercised.",
 ["lib/base64inputstream.cpp", "lib/base64inputstream.h"], [("group assembly across reads", "lib/base64inputstream.cpp")], ["decoded bytes"])

prop("C13", "Character decoding and transcoding is exact across chunk boundaries",
 "Reading characters from encoded bytes, and transcoding bytes from one encoding to another, yields exactly the conversion of the whole input, for any placement of multi-byte sequences relative to source chunks, internal buffers and requested read sizes. Invalid or incomplete input ends in an error after the valid prefix, never in garbage characters or a clean end. An unknown encoding name is reported as an error at construction.",
 ["inputs", "schedules"], "every text, every supported encoding pair, every chunking and read-size sequence, every invalid or truncated tail",
 "Tests decode a few files with default-size buffers.",
 ["lib/inputstreamreader.cpp", "lib/encodinginputstream.cpp"], [("carry-over of incomplete sequences", "lib/inputstreamreader.cpp, lib/encodinginputstream.cpp")], ["delivered characters or bytes, status"])

prop("C14", "Tar archives are decoded exactly",
 "For every well-formed tar archive (ustar or GNU, without pax records), iterating yields one entry per member in archive order, with its exact name (including GNU long names), size, modification time and file/directory type, and a stream delivering exactly the member's bytes. A leading \"./\" is not part of a name. Iteration then ends cleanly; a malformed header (bad number, bad name field) ends it in an error after the entries before it.",
 ["inputs", "histories"], "every list of members, name and content lengths around the 512-byte block and 100-byte name limits, every consumption pattern",
 "Tests list one archive.",
 ["lib/tarinputstream.cpp"], [("header parsing, checksum-free validation, long link handling", "lib/tarinputstream.cpp")], ["nextEntry(), entryInfo(), entry stream bytes"])

prop("C15", "Zip archives are decoded exactly",
 "For every well-formed zip archive (one or more members, stored, or deflated with their sizes before or after the data), iterating yields one entry per member in order with its exact name, uncompressed size when recorded in the header, modification time from the recorded date and time, file/directory type, and a stream delivering exactly the member's original bytes, including members whose sizes are recorded only after their data. Iteration then ends cleanly; a damaged member signature ends it in an error after the entries before it.",
 ["inputs", "histories"], "every list of members, methods and sizes, with data descriptors or not, every consumption pattern",
 "Tests list a few archives.",
 ["lib/zipinputstream.cpp", "lib/dostime.cpp"], [("local header parsing, method dispatch, data descriptor handling", "lib/zipinputstream.cpp")], ["nextEntry(), entryInfo(), entry stream bytes"])

prop("C16", "Ar archives are decoded exactly",
 "For every well-formed ar archive (short names in either style, or GNU long names), iterating yields one entry per ordinary member in order (the symbol and long-name tables are not entries), with its exact name including long names taken from the name table, size and modification time, and a stream delivering exactly the member's bytes, with odd-sized members padded correctly. Iteration then ends cleanly.",
 ["inputs", "histories"], "every list of members and name lengths, every consumption pattern",
 "Tests list one archive.", ["lib/arinputstream.cpp"], [("header and long-name table parsing", "lib/arinputstream.cpp")], ["nextEntry(), entryInfo(), entry stream bytes"])

prop("C17", "Cpio archives and rpm payloads are decoded exactly",
 "For every well-formed new-ASCII cpio archive, iterating yields one entry per member before the trailer in order, with its exact name, size and modification time and a stream delivering exactly its bytes, with header and data padding handled for every length; a malformed header ends the iteration in an error after the entries before it. For an rpm package the entries are those of its compressed cpio payload.",
 ["inputs", "histories"], "every list of members, name and content lengths modulo 4, payload compression, every consumption pattern",
 "Tests list one archive each.", ["lib/cpioinputstream.cpp", "lib/rpminputstream.cpp"], [("header parsing and padding", "lib/cpioinputstream.cpp"), ("lead/signature/header skipping", "lib/rpminputstream.cpp")], ["nextEntry(), entryInfo(), entry stream bytes"])

prop("C18", "Mail messages are split into their parts",
 "For a well-formed mail message the headers (subject, from, to, cc, message id, in-reply-to, references, content type) are reported as written, and a multipart message yields one entry per leaf part in order, each stream delivering exactly the part's content (from after the blank line that ends its headers to the line with the boundary), base64-decoded when so encoded, with the attachment's file name when it has one; nested multiparts are flattened in order. A non-multipart message with a non-empty body yields a single entry with its body.",
 ["inputs", "histories"], "every header set, part list, nesting, transfer encoding and line ending, every consumption pattern",
 "Tests use a handful of stored mails.", ["lib/mailinputstream.cpp"], [("line reader, boundary stack, header values", "lib/mailinputstream.cpp")], ["nextEntry(), entryInfo(), entry bytes, header accessors"])

prop("C19", "SDF files are split into their records",
 "For every structure-data file of non-empty records separated by the four-dollar delimiter, iterating yields one entry per record in order, and each stream delivers exactly the bytes of that record (from after the line of the previous delimiter up to the next delimiter), wherever the delimiter falls relative to internal read boundaries.",
 ["inputs", "histories"], "every list of records and record lengths on a rewindable source, every consumption pattern",
 "Tests use one file.", ["lib/sdfinputstream.cpp"], [("record delimiter scan", "lib/sdfinputstream.cpp")], ["nextEntry(), entry bytes"])

prop("C20", "OLE compound documents are decoded exactly",
 "For every well-formed compound document with 512-byte blocks and ASCII names, iterating yields one entry per non-empty stream in directory order with its exact name and size and a stream delivering exactly its bytes, following allocation chains in whatever order the blocks are laid out, for small streams stored in mini-blocks as well as large ones stored in full blocks.",
 ["inputs", "histories"], "every set of streams, sizes around the mini-stream threshold and block sizes, every block permutation, every consumption pattern",
 "Tests use one document with one layout.", ["lib/oleinputstream.cpp"], [("block allocation table walk", "lib/oleinputstream.cpp"), ("small-block mapping", "lib/oleinputstream.cpp")], ["nextEntry(), entryInfo(), entry bytes"])

prop("C21", "Archive iteration does not depend on how entries are consumed",
 "For every archive format the sequence of entries and their contents is the same whether each entry is read fully, partly, skipped through, rewound and re-read, or not touched before asking for the next one. After the last entry the iterator returns nothing forever with a clean end status; after an error it returns nothing forever with error status and a non-empty message. While an entry is current, it is also what the iterator reports as its current entry.",
 ["histories", "inputs"], "every archive and every consumption history of its entries, in every format",
 "Tests only read all entries fully or skip all of them.",
 ["include/strigi/substreamprovider.h", "lib/tarinputstream.cpp", "lib/zipinputstream.cpp", "lib/arinputstream.cpp", "lib/cpioinputstream.cpp", "lib/rpminputstream.cpp", "lib/mailinputstream.cpp", "lib/sdfinputstream.cpp", "lib/oleinputstream.cpp"],
 [("skipping the remainder of the current entry before the next header", "lib/*inputstream.cpp")], ["nextEntry(), currentEntry(), entryInfo(), status(), error()"])

prop("C22", "A truncated archive never looks complete or wrong",
 "If a tar, zip, ar, cpio or rpm file is cut at any byte inside its members, iterating yields a prefix of the true entries with exact metadata, every fully delivered entry is exact, the entry that is cut delivers only a prefix of its bytes and ends in error (or, if it is compressed and all its content is still there, exactly all its bytes), and the iteration ends in error rather than a clean end. A cut exactly between members yields exactly the members before it.",
 ["inputs", "crash_points"], "every archive and every cut position, with every consumption pattern",
 "No test truncates an archive.",
 ["lib/tarinputstream.cpp", "lib/zipinputstream.cpp", "lib/arinputstream.cpp", "lib/cpioinputstream.cpp", "lib/rpminputstream.cpp", "lib/subinputstream.cpp"],
 [("premature-end checks in header reading and entry skipping", "lib/*inputstream.cpp")], ["entries, bytes and statuses for every prefix of an archive"])

prop("C23", "No input can crash, hang or make a decoder read outside its data",
 "For every byte sequence given as a compressed, encoded, archive, mail or compound file, decoding terminates, touches only memory that belongs to the data delivered, and ends in end-of-stream or error status. No amount of damage to valid input (changed, removed, inserted or overwritten bytes, absurd length fields) makes a decoder crash, loop forever, or hand out pointers outside its buffers.",
 ["inputs"], "every byte string as input of every decoder; explored as structured mutations of valid files in every format",
 "The tests have no corrupted inputs.",
 ["lib/gzipinputstream.cpp", "lib/bz2inputstream.cpp", "lib/lzmainputstream.cpp", "lib/base64inputstream.cpp", "lib/tarinputstream.cpp", "lib/zipinputstream.cpp", "lib/arinputstream.cpp", "lib/cpioinputstream.cpp", "lib/rpminputstream.cpp", "lib/mailinputstream.cpp", "lib/sdfinputstream.cpp", "lib/oleinputstream.cpp", "lib/encodinginputstream.cpp", "lib/inputstreamreader.cpp"],
 [("bounds and magic checks in every parser", "lib/*inputstream.cpp")], ["termination, sanitizer reports, statuses"])

prop("C24", "Listing an archive yields each direct child exactly once",
 "Listing a path inside an archive (or the archive itself) yields exactly the direct children of that directory, each once, with its name, type, size and modification time; directories that exist only as a prefix of member names are included, and files that are themselves archives can be listed as directories. The result is the same whether the archive was seen before, however listings are interleaved, copied or abandoned half-way, and agrees with the results of stat. In an archive of which the end is missing or damaged, the members before the damage are still listed, and what surrounds it is not affected.",
 ["inputs", "histories"], "every archive tree (including nested archives, out-of-order or implicit directories, and every damage of a tail), every interleaving of listers and other queries",
 "Tests list three archives once, in order.",
 ["lib/archivereader.cpp", "lib/listinginprogress.cpp", "lib/archiveentrycache.cpp"],
 [("incremental listing shared between listers", "lib/listinginprogress.cpp"), ("entry cache", "lib/archiveentrycache.cpp")], ["dirEntries()/nextEntry() results"],
 [("listing in progress", "partially read archive shared by listers", "lib/listinginprogress.h"), ("cache", "trees of completely listed archives", "lib/archiveentrycache.h")])

prop("C25", "Opening by path gives exactly the addressed member, or nothing",
 "Opening a path that addresses a member of an archive, at any nesting depth, gives a stream that delivers exactly that member's bytes; opening a plain file gives its bytes; opening a path that addresses no file gives nothing. What was opened, listed or closed before makes no difference, and several streams can be open at once.",
 ["inputs", "histories"], "every archive tree and path (including names that are prefixes of each other), every history of previous operations",
 "Tests open a few members once.",
 ["lib/archivereader.cpp"], [("path resolution and provider positioning", "lib/archivereader.cpp")], ["openStream()/closeStream() results"])

prop("C26", "Path queries agree with the archive and follow its modifications",
 "For every path, stat succeeds exactly when the path addresses an existing file, directory, archive or member, and reports its type, size and modification time; the is-archive query holds exactly for plain files that are archives, and the can-handle query exactly for paths that are, or lie below, archives. When the archive's modification time changes, later queries answer from the new content.",
 ["inputs", "histories"], "every archive tree, every path, every history of queries and of modifications of the archive between queries",
 "Tests stat a few existing members and never modify an archive.",
 ["lib/archivereader.cpp", "lib/archiveentrycache.cpp"], [("cache keyed by path and modification time", "lib/archiveentrycache.cpp, lib/archivereader.cpp")], ["stat(), isArchive(), canHandle() results"])

prop("C27", "UTF-8 validation accepts exactly well-formed UTF-8",
 "Validation accepts a byte string exactly when it is well-formed UTF-8 (RFC 3629) of characters that may appear in XML: tab, line feed, carriage return, U+0020-D7FF, U+E000-FFFD and U+10000-10FFFF. A rejected string gets an error position inside its first offending sequence, an incomplete final sequence is reported at its start with the number of missing bytes. The conversion of line breaks to spaces changes exactly the carriage returns and line feeds of valid text and leaves its validity answer the same.",
 ["inputs"], "every byte string",
 "No test calls the validator on malformed input.",
 ["lib/textutils.cpp", "include/strigi/textutils.h"], [("byte-class state machine", "lib/textutils.cpp")], ["return value, error position, missing count"])

prop("C28", "A process stream delivers the whole output of its command",
 "A stream over a command delivers exactly what the command writes to its standard output, then end-of-stream, however the output and the reads are sized; if an input stream is given, the command receives exactly all of its bytes followed by end of file, unless it stops reading or closes its output earlier. Reading never waits forever for a command that itself waits for input or for room in its output. A command that cannot be started for lack of resources, or an input stream that fails, is reported as an error. Destroying the stream, also before the end, terminates only its own command, releases its descriptors, and leaves other processes alone.",
 ["inputs", "schedules"], "every command behaviour (output size and timing, input consumption), every input size and chunking, destruction at any moment",
 "Tests run echo, cat and a shell loop on small data.",
 ["lib/processinputstream.cpp"], [("pipe pump", "lib/processinputstream.cpp")], ["delivered bytes, status, signals sent, open descriptors, child processes"])

prop("C29", "Fixed-width integers are read in the stated byte order",
 "The helpers that read 16-, 32- and 64-bit signed and unsigned integers from a byte buffer return the value those bytes denote in the stated byte order, for every byte pattern and any alignment of the buffer. Only the bytes of that width influence the result.",
 ["inputs"], "every byte pattern of each width and order",
 "No test calls the helpers.",
 ["include/strigi/textutils.h"], [("byte-wise assembly", "include/strigi/textutils.h")], ["returned values"])

prop("C30", "Positions and sizes beyond 2 and 4 GiB are exact",
 "Streams, sub-streams, terminated sub-streams, archive members and archives keep every guarantee when sizes or positions exceed 2^31 or 2^32: reads deliver the bytes at the 64-bit position, skip and reset move by the 64-bit amount, sizes are reported untruncated, terminators and following members are found, and a member of such a size opened by path has its true size and content.",
 ["inputs", "histories"], "every size up to the limit of the format, every position and every sequence of read, skip, reset and next entry around the limits of 32-bit arithmetic",
 "No test uses more than a few megabytes.",
 ["lib/subinputstream.cpp", "lib/stringterminatedsubstream.cpp", "lib/mmapfileinputstream.cpp", "lib/skippingfileinputstream.cpp", "lib/tarinputstream.cpp", "lib/zipinputstream.cpp", "lib/arinputstream.cpp", "lib/cpioinputstream.cpp", "lib/archivereader.cpp"],
 [("64-bit positions", "include/strigi/streambase.h"), ("mixed 32/64-bit arithmetic", "lib/*inputstream.cpp")], ["return values, position(), size(), delivered bytes, entry sizes"])

prop("C31", "Formats are recognised by their first bytes, and only those",
 "Each format's header check answers yes exactly for data that begins as the format prescribes - its signature where it has one (zip, ar, cpio, rpm, OLE, gzip, bzip2), its header rules otherwise (tar, lzma, mail, SDF) - for data of any length including none, and looks at nothing beyond the given bytes. What a real archive of a format begins with is recognised as that format. Choosing a reader for a stream by its content selects the mail, zip or SDF reader by these rules, or none; when none is selected the stream is still at its position, and a selected reader reads the whole archive from the place where the stream was.",
 ["inputs"], "every byte string up to the size of the header window, every stream position at which recognition starts",
 "Tests call the checks on well-formed files; truncated, perturbed and hostile beginnings are a huge space.",
 ["lib/mailinputstream.cpp", "lib/substreamproviderprovider.cpp", "lib/zipinputstream.cpp", "lib/arinputstream.cpp", "lib/cpioinputstream.cpp", "lib/rpminputstream.cpp", "lib/oleinputstream.cpp", "lib/gzipinputstream.cpp", "lib/bz2inputstream.cpp", "lib/lzmainputstream.cpp", "lib/tarinputstream.cpp", "lib/sdfinputstream.cpp"],
 [("checkHeader functions", "lib/*inputstream.cpp"), ("mail header automaton", "lib/mailinputstream.cpp"), ("reader selection", "lib/substreamproviderprovider.cpp")], ["results of checkHeader, type of the selected reader, position() and status() of the stream afterwards"])

prop("C32", "Mail header fields are delivered as their text",
 "The subject, sender, recipient, identification and reference fields a mail reader reports are the values of the last header line of that name (in any letter case) with folding undone: encoded words in base64 or quoted-printable form are replaced by their characters in UTF-8, white space between two encoded words disappears, and every other character, including white space beside text and what only resembles an encoded word, stays as it is. Header lines end as CRLF or as LF.",
 ["inputs"], "every mail header: any mix of plain text, encoded words, near-encoded words, white space and folds, however the source delivers it",
 "Tests check a handful of subjects; the value is scanned with look-ahead whose cases combine freely.",
 ["lib/mailinputstream.cpp", "lib/base64inputstream.cpp"],
 [("header line splitting", "lib/mailinputstream.cpp"), ("encoded-word scanner", "lib/mailinputstream.cpp")], ["subject(), from(), to(), cc(), bcc(), messageid(), inreplyto(), references()"])

prop("C33", "What the compressing stream delivers decompresses to its input",
 "The compressing stream delivers, at every level and for every way it is read, skipped or reset, one complete zlib stream whose content is exactly what its input holds from the position where the compressor was made; it always makes progress. If the input fails, the compressing stream fails too and what was delivered is not a complete stream.",
 ["inputs", "histories"], "every content, level, source chunking and failure position, and every pattern of reads of the compressed data",
 "The only test of this class is disabled.",
 ["lib/gzipcompressstream.cpp", "lib/gzipcompressstream.h"],
 [("deflate pump", "lib/gzipcompressstream.cpp")], ["bytes, status and error of a decompressing stream over the compressing stream"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
