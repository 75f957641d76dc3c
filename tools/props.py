#!/usr/bin/env python3
# regenerates /verif/properties.jsonl (kept here because JSON lines are unreadable)
import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
SAMPLES="The tests open about forty fixed archives; "
p("C01","Header numbers, bit vectors, size lists and digests decode exactly",
 "For every byte sequence, the variable-length integers, bit vectors (most significant bit first, optionally abbreviated as all-true), size lists and digest lists of a 7z header decode to the values the format assigns to those bytes and consume exactly the bytes that encode them. A count above 2^32-1 (or a zero where the format forbids it) and an encoding cut short by the end of the header are rejected with an error and never yield a value.",
 ["inputs"],"every header byte sequence, every element count and every position at which the header may end",
 SAMPLES+"they meet a few integer lengths and small counts, never all nine integer lengths, bit vectors crossing byte boundaries at every offset, or truncation at every byte.",
 ["types.go"],[("variable-length integer decoder","types.go readUint64"),("bounded count","types.go readUint64Bounded, checkUint64"),("bit vectors","types.go readBool, readOptionalBool"),("size and digest lists","types.go readSizes, readCRC")],["NewReader error or listing"])
p("C02","Stream, folder and substream records decode as written or are rejected",
 "For every header, the pack positions and sizes, the coders (method id, stream counts, properties), the bind pairs, packed-stream indices, unpack sizes, folder digests and per-folder file counts, sizes and digests that the reader works with are exactly the ones encoded in the header's bytes, in order. A header whose record tags are out of place, whose stream references are out of range or whose records contradict each other (missing unpack information, missing packed streams or sizes, files larger than their folder, more files than streams) is refused with an error.",
 ["inputs"],"every header byte sequence",
 SAMPLES+"real archives use a handful of coder layouts and never the malformed or contradictory ones.",
 ["types.go","struct.go"],[("record parsers","types.go readPackInfo, readCoder, readFolder, readUnpackInfo, readSubStreamsInfo, readStreamsInfo, readHeader, readEncodedHeader")],["NewReader error, listing and contents"])
p("C03","Every listed file carries its own metadata",
 "For every archive, file number i of the listing has the name, creation, access and modification time, attributes, emptiness, size, CRC and stream number that the header assigns to entry i: properties defined only for some files are attributed to exactly those files, sizes and digests skip entries without content, and an absent property reads as its zero value. Timestamps convert exactly (100 ns resolution, whole Windows range, in UTC), and names are the NUL-terminated UTF-16LE strings, with a slash appended to directory names that lack one.",
 ["inputs"],"every header: any number of files and folders, any mix of empty and non-empty entries, any subset with each property",
 SAMPLES+"few of them have gaps in optional properties, empty folders, or timestamps outside the recent past.",
 ["types.go","struct.go","reader.go"],[("per-file properties","types.go readFilesInfo, readTimes, readAttributes, readNames, splitNull"),("size and CRC assignment","types.go readHeader; struct.go FileFolderAndSize"),("listing","reader.go init")],["Reader.File[i].FileHeader"])
p("C04","No input makes the reader panic",
 "Whatever bytes are presented as an archive (or as a volume set), with whatever password, opening, listing, opening and reading files in any order, reading after close, closing twice and using the file-system view never make this package's own code panic by an out-of-range index, a nil dereference, a failed type assertion, a division by zero or a bad allocation size; malformed input is reported as an error. (Memory exhaustion by huge declared counts, and panics inside third-party decoders, are outside this property.)",
 ["inputs","histories"],"every byte sequence, password and sequence of API calls",
 "The fuzz corpus has a handful of seeds and only covers opening; panics hide behind specific combinations of counts and missing records.",
 ["types.go","struct.go","reader.go","internal/aes7z/reader.go","internal/bra/reader.go","internal/bcj2/reader.go","internal/delta/reader.go"],[("bounds","types.go checkUint64 and the consistency checks of readFolder/readSubStreamsInfo/readStreamsInfo/readHeader"),("graph checks","struct.go folderReader")],["panic"])
p("C05","An archive only opens if its header checksums match",
 "An archive opens successfully only if the CRC-32 of the start header equals the stored one, the CRC-32 of the complete header equals the stored one, no header bytes are left over, and, for a packed header whose digest is recorded (non-zero), the CRC-32 of the unpacked header equals it. Any single-bit difference in those bytes is therefore refused, and a valid archive is never refused for its checksums.",
 ["inputs"],"every archive and every modification of its signature, start header or header bytes",
 "The tests never corrupt a header; every archive they open has matching checksums.",
 ["reader.go","internal/util/checksum.go"],[("start header CRC, header CRC, unpacked header CRC","reader.go init"),("comparison","internal/util/checksum.go CRC32Equal")],["NewReader error"])
p("C06","The archive is found wherever it starts within the search limit",
 "If the file begins with the signature the archive starts there; otherwise every occurrence of the six-byte signature that starts in the first MiB is considered, in order, whatever its alignment to read boundaries, and the archive starts at the first one followed by a start header whose checksum matches. All stream and header positions are relative to that start; without any occurrence opening fails with a format error.",
 ["inputs"],"every prefix content and length (self-extractor stubs), including decoy signatures and signatures straddling read boundaries",
 "One self-extracting sample with one stub length is tested.",
 ["reader.go"],[("signature search","reader.go findSignature"),("candidate loop and offsets","reader.go init")],["NewReader result, file contents"])
p("C07","Coders read exactly their own packed streams and bound outputs",
 "For every folder of an archive, each coder input is connected to the packed stream or the earlier coder output that the folder's description names, packed streams are delimited at archive start + 32 + pack position + the sizes of all packed streams before it in the archive, each coder gets its own id, properties and unpack size and its output is cut at that size, and the folder's content is the output of the one unbound coder. A folder that cannot be connected that way is refused with an error.",
 ["inputs"],"every folder graph, pack layout and folder index",
 SAMPLES+"multi-input graphs appear once (BCJ2) and archives with several multi-stream folders never.",
 ["struct.go"],[("packed stream delimitation","struct.go folderReader, folderOffset"),("bind pairs","struct.go findInBindPair, findOutBindPair"),("coder construction","struct.go coderReader"),("folder size","struct.go unpackSize")],["file contents"])
p("C08","A file reads as exactly its slice of the folder, or an error",
 "Reading file i of a folder to the end yields exactly the bytes of the folder's unpacked content from the sum of the preceding files' sizes, for exactly its own size, whatever buffer sizes are used and whichever files were opened, partly read or closed before; never a byte of a neighbouring file. End of file is only reported once the whole file was delivered and a decoding or I/O error is reported as an error, never as end of file.",
 ["inputs","histories"],"every archive, every file, every sequence of opens, partial reads and closes, every buffer size",
 "The tests read whole files in listing order or one random order, with one buffer size, and never through a failing source.",
 ["reader.go","struct.go"],[("window","reader.go fileReader.Read, File.Open"),("offsets","reader.go init"),("early end","reader.go fileReader.Read")],["File.Open, Read"])
p("C09","Pooled readers are exclusive, bounded and never skip data",
 "A folder reader returned to the pool is handed out at most once, and a request for an offset gets the reader at that offset, else one with the greatest offset below it, and never one beyond it. The pool never holds more than its capacity; the least recently added reader is closed when it overflows, a reader that is not accepted is closed, a reader that failed is not offered again, and no pooled reader is closed while in use.",
 ["histories"],"every sequence of put and get operations with any offsets",
 "The tests touch the pool through whole-archive reads only; its eviction, duplicate-offset and nearest-offset rules are never observed.",
 ["internal/pool/pool.go","reader.go"],[("LRU","internal/pool/pool.go Get, Put, removeOldest, removeElement"),("return to pool","reader.go fileReader.Close")],["pool Get/Put results, Close calls"])
p("C10","Folder readers seek forward only and account for every byte",
 "A folder reader's position always equals the number of bytes taken from it, and its checksum the CRC-32 of those bytes. A seek to a position at or after the current one and within the content moves exactly there by discarding; one before the current position, before the start or after the end fails and leaves the position unchanged.",
 ["inputs","histories"],"every sequence of reads and seeks with every offset and whence",
 "One fixed sequence of seeks on one sample is tested.",
 ["struct.go"],[("seek","struct.go folderReadCloser.Seek"),("accounting","struct.go newFolderReadCloser, Checksum, Size")],["Seek result"])
p("C11","Branch filters invert the reference conversion",
 "For every byte sequence and start position the ARM, ARM64, PowerPC, SPARC and x86 (BCJ) decoders produce exactly the output of the reference 7-Zip conversion, and for the fixed-width filters converting in the encoding direction and back restores the input. Only whole instructions at instruction boundaries change; trailing bytes too short for an instruction are passed through.",
 ["inputs"],"every byte sequence, every position including beyond 4 GiB, both directions",
 "One archive per filter: the instructions, operand signs and positions it happens to contain.",
 ["internal/bra/arm.go","internal/bra/arm64.go","internal/bra/ppc.go","internal/bra/sparc.go","internal/bra/bcj.go"],[("conversion","internal/bra/*.go Convert")],["Read of a filtered stream"])
p("C12","The Delta filter adds back each byte's predecessor at the distance",
 "For every distance from 1 to 256 and every input, byte i of the Delta filter's output equals input byte i plus output byte i-distance (zero before the start), modulo 256, regardless of how the input is split across reads; end of input and errors of the source are passed on.",
 ["inputs","schedules"],"every input, distance and sequence of read sizes",
 "One archive with one distance, read in large blocks.",
 ["internal/delta/reader.go"],[("filter and carried state","internal/delta/reader.go Read"),("distance","internal/delta/reader.go NewReader")],["Read"])
p("C13","BCJ2 merges its four streams as the reference decoder does",
 "For every four input streams, the BCJ2 decoder outputs the main stream's bytes with, after each call or jump opcode whose range-coded flag bit is set, the next big-endian address of the call (E8) or jump (E9, 0F 8x) stream converted to a relative little-endian one, with the adaptive probability model of the reference. A call or jump stream that ends too early is an error.",
 ["inputs"],"every combination of the four streams",
 "One archive.",
 ["internal/bcj2/reader.go"],[("range decoder","internal/bcj2/reader.go decode, update"),("opcode tests and model choice","internal/bcj2/reader.go isJ, isJcc, index"),("merge","internal/bcj2/reader.go read, Read")],["Read"])
p("C14","Filter and cipher output does not depend on how it is read",
 "For the branch filters and the AES decoder, the sequence of bytes delivered is the same for every sequence of read sizes and however the source splits its data: bytes come out once, in order, none are lost at buffer boundaries, progress is made on every read, and the final partial instruction is delivered unchanged. AES output is the CBC decryption of the whole blocks of the source, and a partial final block is an error.",
 ["inputs","schedules"],"every input, every sequence of read buffer sizes, every way the source may split its data",
 "Tests read with io.Copy's one buffer size from sources that fill every buffer.",
 ["internal/bra/reader.go","internal/aes7z/reader.go"],[("branch filter buffering","internal/bra/reader.go Read"),("block buffering","internal/aes7z/reader.go Read")],["Read"])
p("C15","AES parameters and keys are derived as the 7z format prescribes",
 "For every properties record and password, salt, initialisation vector and cycle count are the ones encoded, a record of the wrong length is refused, and the key is SHA-256 over salt, UTF-16LE password and an 8-byte little-endian counter for all 2^cycles rounds (the plain salt and password, zero padded, for cycle value 0x3f). A cached key is only used for the identical password, cycle count and salt; deriving a key changes nothing else; cycle counts above 24 are refused.",
 ["inputs","histories"],"every properties record, password and history of derivations",
 "A few archives with one cycle count, no salt, and one password each; the cache is only hit by identical requests.",
 ["internal/aes7z/key.go","internal/aes7z/reader.go"],[("key derivation and cache","internal/aes7z/key.go calculateKey"),("properties","internal/aes7z/reader.go NewReader")],["decrypted contents, Password error"])
p("C16","Decoders are owned by one reader and unusable after close",
 "Every decoder reader owns its underlying decoder exclusively from creation until Close: a decoder goes back for reuse at most once, only when its reader is closed, and is re-initialised with the new source before it is used again. After Close every Read fails and a second Close releases nothing; Close closes the source, and reports its error.",
 ["histories"],"every sequence of create, read and close over any number of decoder readers",
 "Tests close each reader once and never look at one after closing it.",
 ["internal/brotli/reader.go","internal/bzip2/reader.go","internal/deflate/reader.go","internal/lz4/reader.go","internal/lzma/reader.go","internal/lzma2/reader.go","internal/ppmd/reader.go","internal/zstd/reader.go","internal/bra/reader.go","internal/delta/reader.go","internal/bcj2/reader.go","internal/aes7z/reader.go"],[("close and pooling","internal/*/reader.go Close, NewReader")],["Read/Close results"])
p("C17","File modes follow the stored attributes",
 "For every attribute value, the file mode is derived from the POSIX part (upper 16 bits: type, permissions, setuid, setgid and sticky) when a POSIX type is present, and otherwise from the Windows directory and read-only flags; exactly one of directory, regular or special is reported, and the listing, FileInfo and directory-entry views agree. ",
 ["inputs"],"all 2^32 attribute values",
 "Sample archives contain a handful of attribute values.",
 ["struct.go"],[("mode mapping","struct.go Mode, msdosModeToFileMode, unixModeToFileMode"),("views","struct.go headerFileInfo")],["FileHeader.Mode, FileInfo"])
p("C18","Names shown by the file-system view are valid and stay inside the root",
 "For every stored name, the file-system view shows it with backslashes as slashes and with leading slashes and leading parent references removed; every name it shows is a valid slash-separated relative path without empty, '.' or '..' elements, and names that reduce to nothing are not shown.",
 ["inputs"],"every stored file name",
 "Sample archives only contain well-behaved relative names.",
 ["reader.go"],[("sanitising","reader.go toValidName"),("index","reader.go initFileList")],["fs.WalkDir, Reader.Open"])
p("C19","The file-system view lists and opens exactly the archive's tree",
 "For every set of stored names, opening a path in the file-system view succeeds exactly for the root, the stored names and the directories implied by them, invalid paths are refused, each directory lists exactly its children once and in order, in pieces of any requested size, and a file opened by path delivers the content and information of the entry of that name. Names stored more than once, or both as file and directory, are reported as duplicates when listed.",
 ["inputs","histories"],"every set of stored names, every path and every sequence of directory reads",
 "One well-formed archive is walked by fstest.",
 ["reader.go"],[("index and order","reader.go initFileList, fileEntryLess, split"),("lookup","reader.go openLookup, openReadDir"),("directory reads","reader.go openDir.ReadDir")],["Reader.Open, ReadDir, Stat"])
p("C20","Volumes are joined in order and every opened file is closed",
 "A name ending in .001 opens the volumes .001, .002 and so on up to the first that does not exist, reads them as one stream in that order and lists exactly those; any other name opens exactly one file. Whenever opening fails, for whatever reason and at whatever volume, every file opened so far is closed and the error returned, and closing the archive closes every volume and reports any failure.",
 ["inputs","fault_sequences"],"every number of volumes and every open, stat or read failure",
 "Tests fail one open and one stat, and use one six-volume archive.",
 ["reader.go"],[("opening volumes","reader.go openReader"),("cleanup","reader.go OpenReaderWithPassword, ReadCloser.Close, Volumes")],["files closed, errors"])
p("C21","Read failures are typed and flag encryption",
 "Whenever opening or reading a file, or unpacking the header, fails in a decoder chain, the error is a ReadError wrapping the cause, and its Encrypted hint is set exactly if the folder's chain was built with a decrypting coder before or at the failure. An unregistered method fails with an unsupported-algorithm error.",
 ["inputs","fault_sequences"],"every folder graph and every point of failure",
 "Wrong-password tests cover two archives and failures while decoding; not failures while setting up or seeking.",
 ["struct.go","reader.go"],[("hint","struct.go coderReader, folderReader"),("wrapping","reader.go File.Open, fileReader.Read, init")],["errors.As ReadError"])
p("C22","Each method id selects its decoder with the archive's parameters",
 "Every supported method id selects its own decoder and an id registered by the user replaces exactly that id; decoders get the parameters recorded for their coder: LZMA properties and unpack size, the LZMA2 dictionary size of the format's table, PPMd order and memory size. A decoder refuses a wrong number of input streams or malformed properties with an error.",
 ["inputs","configurations"],"every method id, properties record, unpack size and number of streams",
 "One archive per method: one parameter setting each.",
 ["register.go","internal/lzma/reader.go","internal/lzma2/reader.go","internal/ppmd/reader.go","internal/brotli/reader.go"],[("registry","register.go RegisterDecompressor, decompressor, init"),("parameters","internal/lzma/reader.go, internal/lzma2/reader.go, internal/ppmd/reader.go NewReader")],["file contents, errors"])
p("C23","Compressed data decodes as its method's specification prescribes",
 "For every compressed stream of LZMA, LZMA2, PPMd, Deflate, Bzip2, Zstandard, Brotli and LZ4, the decoded bytes are the ones the method's specification prescribes.",
 ["inputs"],"every compressed stream",
 "One sample archive per method.",
 ["internal/lzma/reader.go","internal/ppmd/reader.go"],[("third-party decoders","go.mod")],["file contents"])
p("C24","Concurrent reading of files is free of data races",
 "Reading several files of one archive, or several archives, from concurrent goroutines yields for each the same bytes as reading it alone.",
 ["schedules"],"every interleaving of concurrent opens, reads and closes",
 "The tests read files concurrently once, under whatever schedule happens.",
 ["reader.go","internal/pool/pool.go","internal/aes7z/key.go"],[("pool mutex","internal/pool/pool.go"),("file list once","reader.go initFileList")],["file contents"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
