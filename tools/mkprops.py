import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Decoding does not depend on how the bytes are delivered",
"Decoding a given byte sequence gives the same outcome (the same document, or an error) however the reader and the buffer files hand the bytes over: in one piece, one byte at a time, in any other split, with empty reads in between, with the last bytes arriving together with the end-of-file mark, or with pauses. This holds for glTF and GLB input, for valid and for invalid bytes, and for every external buffer file, whatever size that file reports.",
["schedules","inputs"],"every byte sequence (valid asset, damaged asset, arbitrary bytes) x every way of splitting it into read calls",
"The tests read from bytes.Buffer, strings.Reader and real files, which deliver everything in one call; they sample one delivery schedule of each input. Chunk boundaries inside the 20-byte header, the JSON padding or the binary chunk are never exercised.",
["decoder.go"],[("header peek","decoder.go readGLBHeader"),("length-limited JSON chunk","decoder.go decodeDocument"),("full reads of the binary chunk","decoder.go decodeBinaryBuffer"),("whole-file reads of external buffers","decoder.go decodeBuffer")],
[("buffered reader","position in the source stream shared by the header, JSON and BIN readers","decoder.go Decoder.r")],["Decoder.Decode result","Open result"])

p("C02","A failed write is never reported as success",
"If creating, writing or closing any output (the main stream or file, or the file of any external buffer) reports an error, the encode or save that caused it returns an error. If it returns no error, every byte of the encoded asset and of every external buffer was accepted by its destination.",
["fault_sequences","inputs"],"every document x output format x every write, create or close call that may fail, including a write that stored only part of its data, a full disk, and a failure of the very last call",
"Tests encode to memory, where nothing fails, apart from a couple of writers that fail on the first call; a failure of the n-th write, of a buffer file, or of a close is never injected.",
["encode.go"],[("error propagation of header, JSON, padding and BIN writes","encode.go encodeBinary"),("create/write/close of buffer files","encode.go encodeBuffer"),("close error of the main file","encode.go save")],
None,["Encoder.Encode result","Save/SaveBinary result","bytes accepted by each destination"])

p("C03","An interrupted or truncated source never passes for a complete one",
"When the main source or a buffer file ends early or starts failing part-way, decoding returns an error, unless everything except trailing padding had already arrived, in which case the document equals the complete one; opening a file that fails to decode returns no document. A failure to read a buffer file is always returned, and a buffer file that is merely shorter than declared yields exactly the bytes present, so that reading accessors beyond them is an error and never invented data.",
["crash_points","fault_sequences","inputs"],"every asset x every cut or failure position in the main source and in each buffer file, with sticky and one-off errors",
"Tests use a handful of fixed malformed files; they do not cut or fail each asset at every position, nor inside an external buffer file.",
["decoder.go","modeler/read.go"],[("io.ReadFull on BIN","decoder.go decodeBinaryBuffer"),("error return of buffer files","decoder.go decodeBuffer"),("nil document on error","decoder.go Open"),("bounds check of views","modeler/read.go ReadBufferView")],
None,["Decoder.Decode result","Open result","modeler.ReadAccessor result"])

p("C04","Opening a file returns what the last successful save stored",
"After a successful save of a valid document, in either format, opening that file (in the same process or after a restart) returns a document equal to the saved one, with the same bytes in every buffer, whatever was saved, edited, opened or failed before on the same disk. A save or an open touches no file other than the named one and the buffer files the document refers to.",
["histories","fault_sequences","crash_points","inputs"],"every history of building, editing, saving (both formats), re-saving shorter or longer, opening and re-saving on a shared disk, with failed saves and process crashes in between",
"Round-trip tests save one document once into a fresh place; overwriting, re-saving opened documents after edits, mixing formats and buffer kinds, or recovering after a failed or interrupted save is not sampled.",
["encode.go","decoder.go","gltf.go"],[("truncate on create","encode.go save / dirFS.Create"),("buffer kinds: BIN, embedded, external","encode.go marshalJSONDoc / encodeBuffer"),("defaults omitted and restored","encode.go MarshalJSON/UnmarshalJSON methods")],
[("file tree","durable state shared by all saves and opens","the disk")],["Open result after Save/SaveBinary","directory contents"])

p("C05","Everything encoded successfully is a well-formed asset",
"Every successful encode produces a well-formed asset that an independent reader interprets as the same document: a GLB has the right magic, version, total length, 4-byte aligned chunks and paddings, and a binary chunk that holds the first buffer's bytes; the JSON uses the specification's property names, enumeration values and defaults; buffers without a URI are embedded, external buffers are written to the file their URI names; indentation the caller asks for (SetJSONIndent) is applied as asked and changes white space only. This holds whether the bytes leave in one write or many.",
["inputs","configurations"],"every document x format x indentation x writer behaviour, exchanged with a peer that shares no code with the library",
"Round-trip tests read back with the library's own decoder, so a symmetric mistake (wrong enum value, wrong length field, wrong padding byte) cancels out; only a few golden strings are compared.",
["encode.go","gltf.go","const.go"],[("chunk lengths and padding","encode.go encodeBinary"),("embedding of buffers","encode.go marshalJSONDoc"),("enum tables","const.go MarshalJSON methods")],
None,["bytes written to the stream and to buffer files"])

p("C06","Only files inside the asset's own directory are ever named",
"Every name the library passes to a file system for reading or creating a buffer is a relative, local path that stays inside the directory of the asset, whatever URI the document contains (dot-dot segments, absolute paths, back-slashes, percent-encoding, schemes); a URI that would escape is refused with an error or ignored, never followed. Without a file system, nothing outside the given stream is read or written.",
["inputs","configurations"],"every buffer and image URI x decode and encode x both formats x with and without a file system",
"Tests try a couple of escaping URIs; encodings and combinations (encoded dots, mixed slashes, scheme-looking prefixes) are unbounded.",
["decoder.go","encode.go"],[("URI validation","decoder.go validateBufferURI"),("URI normalisation","decoder.go sanitizeURI"),("directory-rooted file system","encode.go dirFS")],
None,["names passed to Fsys.Open / Fsys.Create","paths opened by Open/Save"])

p("C07","Every file opened is closed, once, and caller streams are left open",
"When a save, open, encode or decode returns, successfully or not, every file it opened or created has been closed exactly once and no file is used after it was closed. Readers and writers supplied by the caller are never closed.",
["fault_sequences","inputs"],"every operation x every failing call inside it",
"Tests never count handles; a leak on one error path (n-th buffer fails, close fails, decode fails half-way) is invisible to them.",
["decoder.go","encode.go"],[("deferred close of the main file","decoder.go Open"),("close on both paths","encode.go save"),("close of each buffer file","encode.go encodeBuffer")],
[("open handles","files opened and not yet closed","file system seam")],["handle table of the simulated file system at return"])

p("C08","Malformed input yields an error, never a panic, hang or memory blow-up",
"Decoding arbitrary or damaged bytes, and reading accessors, buffer views, typed attributes and embedded images of the resulting or any other malformed document (indices, offsets, lengths, strides, counts, types and sparse data of any value, missing entries), returns either a result or an error: it never panics, never fails to terminate, and never allocates memory out of proportion to the data actually supplied. A read that cannot be satisfied from the bytes present is an error (an accessor without a buffer view is all zeroes and needs none).",
["inputs","fault_sequences"],"every byte string produced by corruption (flipped, torn, lost, duplicated or spliced bytes) of stored or transmitted assets, and every field value of a document",
"The tests list a few malformed documents; the space of corruptions is unbounded and the known ones only cover checks that already exist.",
["decoder.go","modeler/read.go","binary/slice.go","binary/encode.go"],[("byteLength validation","decoder.go validateBuffer"),("bounds checks","modeler/read.go readBufferView/ReadBufferView"),("short buffer check","binary/encode.go Read")],
None,["panics, step count and allocation of Decode/Open/modeler.Read*/Image.MarshalData"])

p("C09","Writing into a document never disturbs what was written before",
"Each successful modeler write of non-empty data appends its data and entries to the document and returns indices under which exactly that data is read back, both immediately and after any number of later writes, encodes and decodes; data, buffer views, accessors and images written earlier keep their contents, buffer lengths match the buffer data, the buffer view of every accessor written starts 4-byte aligned, and element type, count, normalisation and position bounds describe the data. A write that returns an error, and a write of primitive attributes that are all empty, leaves the document as it was.",
["histories","inputs","fault_sequences"],"every sequence of writes of every element type, length and interleaving, with failing image readers and invalid arguments in between",
"Tests perform one or two writes on a fresh document and compare the whole struct; long mixed histories, odd lengths that need padding, writes after an error and read-back after re-encoding are not sampled.",
["modeler/write.go","binary/encode.go"],[("append-only buffer growth","modeler/write.go writeBufferViews"),("padding","modeler/write.go ensurePadding"),("min/max","modeler/write.go WritePosition")],
[("last buffer","grows with every write","doc.Buffers[len-1]")],["modeler.Read* results","document fields"])

p("C10","Accessor reads depend only on the document",
"Reading an accessor, a typed attribute, or the elements of a buffer view (package binary) of a valid document returns exactly the values its document defines (dense, interleaved, sparse or without data; every component and element type; converted as documented for the typed readers), with exactly Count elements. The result does not depend on the contents, length or presence of the buffer passed in, nor on what was read before or is pooled, and it does not change when other accessors are read later unless the caller reuses the buffer.",
["histories","schedules","inputs"],"every valid accessor x every history of earlier reads x every buffer passed in x every pool state",
"Tests read small accessors once with a fresh or nil buffer; stale data from a reused caller buffer or from an internal pool needs a history of reads of different sizes.",
["modeler/read.go","binary/slice.go","binary/encode.go"],[("reuse of the caller's buffer","binary/slice.go MakeSliceBuffer, modeler/read.go makeBufferOf"),("pools","modeler/read.go bufPool, uint32Pool")],
[("pools","scratch memory shared by all reads","modeler/read.go")],["modeler.ReadAccessor and typed reader results"],"pool seam (build-time overlay)")

p("C11","Concurrent use gives the same results as use in isolation",
"Goroutines that decode, encode, open, save, build and read separate documents, or that only read or encode one shared document, do so without data races, and each obtains exactly the result it would obtain running alone.",
["schedules","inputs"],"every interleaving of several callers' operations on separate documents or read-only on a shared one",
"The test-suite has no concurrent test; package-level pools, the extension registry and any scratch state are only ever used by one goroutine at a time.",
["modeler/read.go","gltf.go","encode.go","decoder.go"],[("sync.Pool scratch","modeler/read.go"),("registry lock","gltf.go extMu"),("no writes to the document while encoding","encode.go marshalJSONDoc")],
[("pools and registry","process-wide mutable state","modeler/read.go, gltf.go")],["results of each goroutine","race reports"],"yield points (build-time overlay)")

p("C12","The extension registry behaves like one atomic map and never deadlocks",
"While extensions are registered and re-registered concurrently with decoding, each extension value is produced by a factory that was the latest completed registration for its key or one overlapping the decode; once a registration has returned, later decodes never use an older factory, and keys never registered are left raw. Registrations and decodes always complete, also when a factory itself decodes documents or registers extensions.",
["schedules","histories"],"every interleaving of registrations and decodes on a few keys, including re-entrant factories",
"Tests register one extension before decoding, from one goroutine.",
["gltf.go","encode.go"],[("read-write lock around the map","gltf.go RegisterExtension/queryExtension"),("lock not held during factory calls","encode.go Extensions.UnmarshalJSON")],
[("registry","key -> factory","gltf.go extensions")],["which factory produced each decoded extension"],"lock seam (build-time overlay)")

p("C13","Encoding and reading never modify the document",
"Encoding, saving, and reading accessors, buffer views and attributes leave the document exactly as it was, including buffer bytes, URIs, lengths, extension payloads and slice lengths, whether the operation succeeds, fails part-way or is aborted by a failing destination.",
["fault_sequences","inputs"],"every document x operation x failure point",
"Tests compare outputs and rarely look at the input document afterwards, and never after a failure half-way.",
["encode.go","modeler/read.go"],[("temporary copies for embedding","encode.go marshalJSONDoc"),("copying into caller memory","modeler/read.go")],
None,["deep snapshot of the document before and after"])

p("C14","Operations make bounded progress and recover once faults stop",
"Every decode, encode, open, save and accessor read finishes after a bounded number of stream and file calls, even when the source stalls by returning no data without an error or keeps failing. Once faults stop, repeating the failed operation on the same inputs succeeds with the same result as if no fault had ever happened.",
["fault_sequences","schedules"],"every operation x every sequence of stalls and errors followed by a fault-free period",
"No test injects stalls, and none retries an operation after a fault to see whether state left behind (files, pools, locks) prevents recovery.",
["decoder.go","encode.go","modeler/read.go"],[("buffered reader's empty-read limit","decoder.go Decoder.r"),("no state kept across failed calls","package-level pools and locks")],
None,["number of I/O calls and steps per operation","result of the retry"])

p("C15","Extension payloads survive every decode and encode",
"A payload of an extension that is not registered, or whose factory fails, is kept verbatim as raw JSON and written back with the same content, at every place the format allows extensions; payloads of the built-in and of registered extensions decode to their documented types and survive any number of decode and encode relays with equal content, including extension data and extras nested inside them. Extras survive likewise. 'Content' is every property the documented types of an extension represent.",
["histories","inputs","fault_sequences"],"every payload x every location x every subset of registered, failing and unknown extensions x any number of relays",
"Tests decode a few fixed payloads for each extension and encode others; they do not relay documents repeatedly, nor nest payloads, nor place them at every location.",
["encode.go","gltf.go","ext/lightspunctual/lightspunctual.go","ext/specular/specular.go","ext/texturetransform/transform.go","ext/unlit/unlit.go"],[("raw fallback","encode.go Extensions.UnmarshalJSON"),("per-extension codecs","ext/*")],
[("registry","which keys have factories","gltf.go extensions")],["decoded extension values","re-encoded JSON"])

p("C16","Conforming assets from other writers decode faithfully",
"Any asset that conforms to glTF 2.0, from whatever writer, decodes to the content it describes: property order, white space, explicitly written or omitted defaults, unknown properties, JSON-chunk padding of any legal length, additional GLB chunks after the known ones, trailing bytes, percent-encoded buffer URIs, embedded buffers and buffer files longer than declared make no difference. Every property the specification defines a default for and that the document model represents has that default after decoding when the asset omits it.",
["inputs","schedules","configurations"],"every conforming rendering of every document, delivered by a simulated peer and disk",
"Tests decode about ten sample files produced by a few exporters.",
["decoder.go","encode.go","const.go"],[("default-filling UnmarshalJSON","encode.go, const.go"),("chunk handling","decoder.go decodeDocument/decodeBinaryBuffer"),("URI normalisation","decoder.go sanitizeURI")],
None,["Decoder.Decode result","Open result"])

p("C17","Encoded bytes depend only on the document and the settings",
"Encoding the same document with the same settings always produces the same bytes and the same buffer files: in repeated calls, with a reused or fresh encoder, after other documents were encoded or an encode failed, in any goroutine, and whatever the iteration order of maps.",
["schedules","histories","inputs"],"every document x every history of earlier encodes x every map iteration order",
"Tests encode a document once and compare with one expected output; documents with several extensions or attributes rarely appear twice.",
["encode.go"],[("sorted map encoding","encoding/json"),("no state kept between calls","encode.go Encoder")],
None,["bytes of repeated encodes"],"map iteration seam (build-time overlay)")

p("C18","What callers are given is theirs alone",
"A document made by NewDocument, decoded or opened, the slice returned by an accessor read, and the value returned by a built-in extension's Unmarshal share no changeable memory with one another, with the bytes or slices they were made from or written from, or with anything the library keeps: whatever a caller does to one of them (including appending within its capacity), no other one changes, and the same operation on the same input gives the same result again, also after operations that failed part-way. Likewise the parts of one decoded document (its elements, lists, buffers' bytes, extension values) are independent of each other. Buffer views, which are documented to be views of the buffer's data, are excepted, and so is a buffer the caller passed in to be used.",
["histories","inputs","fault_sequences"],"every history of making, decoding, opening, reading and writing documents, with failures, x every change a caller makes to one of the results",
"Tests look at each result once and throw it away; none changes a result and looks at another one, or repeats the operation.",
["gltf.go","decoder.go","encode.go","modeler/read.go","modeler/write.go","ext"],[("fresh defaults in UnmarshalJSON methods","encode.go, ext/*"),("fresh buffers","decoder.go decodeBuffer / decodeBinaryBuffer / readBytes"),("pooled scratch memory is copied from","modeler/read.go")],
None,["documents and slices held while others are overwritten"])

p("C19","A failure is reported with its cause",
"When a decode, open, encode, save or image write fails because something it used reported an error (the caller's reader or writer, a file that is opened, created, read, written or closed, or a payload that refuses to be marshalled), the error it returns is one of the errors that were reported or wraps one (errors.Is), whether it came with the first byte, part-way or at the end, from the main stream or from any buffer file, and in whatever format. Where a file or directory does not exist, the error satisfies errors.Is(err, fs.ErrNotExist). An operation on something valid does not fail when nothing it used failed.",
["fault_sequences","inputs","schedules"],"every asset or document x every position, call and number of failures x every error x every delivery",
"Tests compare errors with nil, and hardly any failing stream appears in them; which error arrives depends on where the failure falls.",
["decoder.go","encode.go","modeler/write.go"],[("errors passed on","decoder.go Decode / readGLBHeader / readBytes"),("errors passed on","encode.go Encode / Save"),("reader error passed on","modeler/write.go WriteImage")],
None,["the returned error"])

p("N01","Component normalisation is inverse to de-normalisation",
"De-normalising a component value and normalising the result gives back the original value, and both follow the formulas of the specification.",
["inputs"],"every component value",
"The tests check a few values.",["math.go"],[("formulas","math.go")])
p("N02","Accessors for optional values return the documented defaults",
"Each helper that returns a property or its default returns the set value when present and the specification's default otherwise, and the textual names of enumeration values match the specification.",
["inputs"],"every value of the property",
"The tests check one value of each.",["gltf.go","const_strings.go"],[("OrDefault helpers","gltf.go"),("generated names","const_strings.go")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
