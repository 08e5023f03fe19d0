import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("S01","Every request gets exactly one complete, correct response",
 "Every well-formed HTTP request on a connection that its client keeps open gets exactly one complete response, in request order on an HTTP/1 connection and on its own stream on an HTTP/2 connection. Its status and body depend only on the request's method and target and on whether the named image could be opened at some moment while the request was being served: 404 'notfound' for a method other than GET, 400 with text naming the offending part for a malformed image request, 400 'io error' when the image cannot be opened, 200 'OK' when it can. How the bytes are fragmented or delayed in either direction, pipelining, concurrent streams and connections, the worker that serves the request, slow or failing storage for other requests and earlier requests never change it.",
 ["inputs","schedules","fault_sequences","histories"],
 "all request sequences (HTTP/1 keep-alive and pipelining, HTTP/2 multiplexing), all fragmentations, short reads and writes and delays of the byte streams, all orders in which workers, tasks and file opens complete, all open failures",
 "The two HTTP unit tests only call the path decoder on two strings; nothing runs a connection, a pipelined request, a partial read, a delayed file open or a second client.",
 ["src/lib.rs","src/http.rs","src/resolve.rs","src/iiif.rs","src/iiif/parse.rs"],
 [("HyperStream read/write adapter between the socket and hyper","src/lib.rs hyper_compat"),("per-connection task and ResponseBody","src/lib.rs serve_http2"),("routing and decoding of the path","src/http.rs handle_request, decode_image_request"),("IIIF grammar","src/iiif/parse.rs")],
 ["bytes received by clients","simulated storage open events"])

p("S02","No request can reach a file outside the image directory",
 "Whatever identifier a client sends - absolute, with parent-directory steps, percent-encoded, empty, or containing bytes that cannot occur in a file name - the server only ever opens paths inside the configured image directory. A request whose identifier would lead elsewhere gets a client-error response, is answered like any other malformed request, and disturbs nothing else.",
 ["inputs","schedules","histories"],
 "all identifiers (raw and percent-encoded) in all positions of all request histories on both HTTP versions",
 "No test resolves an identifier against a directory at all; the decoder test even asserts that an encoded slash is decoded, without looking at what is then opened.",
 ["src/resolve.rs","src/http.rs"],
 [("join of the image directory and the decoded identifier","src/resolve.rs DiskImageSource::resolve"),("percent decoding of the identifier","src/http.rs decode_image_request")],
 ["every path handed to storage","responses"])

p("S03","Storage is touched once per valid image request, for exactly its file",
 "Each valid image request causes exactly one open attempt, of exactly the file named by its percent-decoded identifier inside the image directory, and its answer reports the outcome of that attempt and not of another request's or an earlier one's. Requests that are malformed or use another method cause no storage access at all.",
 ["inputs","schedules","histories","fault_sequences"],
 "all interleavings of concurrent requests for equal and different images whose opens complete in any order, fail, or whose files appear and disappear between requests",
 "No test opens an image, and attribution of outcomes between concurrent requests only goes wrong under particular completion orders and changing directory contents.",
 ["src/resolve.rs","src/http.rs","src/iiif.rs"],
 [("open of the resolved path","src/resolve.rs"),("decode before resolve","src/http.rs image_request")],
 ["simulated storage open events","responses"])

p("S04","Failures stay local: no peer, request or I/O error stops the service",
 "No byte stream sent by a peer, no connection-level failure (abort before accept, reset, stall, early close), no failed accept, no storage failure and no request of any kind stops a worker from accepting and serving connections, or changes the answers other connections get. Every worker started keeps serving: once faults stop, a fresh request to any worker is answered within a bounded number of steps.",
 ["inputs","schedules","fault_sequences","histories"],
 "all sequences of hostile or unlucky byte streams, connection faults, accept errors and storage errors, interleaved with normal traffic on any number of workers",
 "No test starts the server; the failure needs a fault or an unusual request to hit a live worker while other clients depend on it.",
 ["src/lib.rs","src/http.rs","src/resolve.rs"],
 [("accept loop","src/lib.rs serve_http2"),("task per connection","src/lib.rs serve_http2"),("request dispatch","src/http.rs handle_request")],
 ["worker liveness","responses to probe clients"])

p("S05","At most 1024 connections are served at once; the rest wait and get served",
 "Each worker serves at most 1024 connections at the same time, and does serve 1024 when that many are open. Connections beyond that wait without being served or dropped and are served as soon as an earlier one ends; however a connection ends - closed, reset, malformed, in the middle of a request, before its first byte - its place becomes free again.",
 ["schedules","fault_sequences","histories"],
 "all histories of more than 1024 connections per worker opening, idling, failing and closing in any order",
 "No test opens a connection; the limit and a leaked place only show with more than a thousand connections and particular ways of ending them.",
 ["src/lib.rs"],
 [("connection semaphore and permit lifetime","src/lib.rs serve_http2")],
 ["which connections have been read from and answered","open sockets per worker"])

p("S06","Sockets and image files are released when their use ends",
 "When a client has closed or reset its connection, or a connection has been ended by an error, the server releases that connection's socket; when a request has been answered or abandoned, it releases the image file it opened. After all clients have gone, the server holds no connection and no open file.",
 ["schedules","fault_sequences","histories"],
 "all histories of connections and requests ending in any way at any point, including while a file open is in flight",
 "No test runs a connection; leaks only show over histories in which connections end at unusual points.",
 ["src/lib.rs","src/http.rs","src/resolve.rs"],
 [("ownership of the stream by the connection task","src/lib.rs serve_http2"),("image handle dropped with the request","src/http.rs image_request")],
 ["open simulated sockets and files"])

CF=["openjp2-rs/src/stream.rs","openjp2-rs/src/openjpeg.rs","openjp2-rs/src/j2k.rs","openjp2-rs/src/jp2.rs"]
p("C01","Decoding depends only on the stored bytes, not on how they are delivered",
 "Decoding the same JPEG 2000 codestream or JP2 file through any stream - a file, or callbacks that deliver the bytes in pieces of any size, with any internal buffer size - gives the same result: the same success or failure and the same pixels, dimensions, component layout, colour information and profile. (Streams that cannot seek are covered for undamaged data; runs that meet the memory limit are not compared.)",
 ["inputs","schedules","configurations"],
 "all streams decodable or not, all legal partitions of reads into short reads, all buffer sizes, both stream kinds, declared length known exactly",
 "The two decode tests read one file, once through a file stream and once through one fixed chunking.",
 CF+["openjp2-rs/src/tcd.rs","openjp2-rs/src/t2.rs"],
 [("buffered reader over file or callbacks","openjp2-rs/src/stream.rs"),("header, marker and tile-part readers","openjp2-rs/src/j2k.rs, jp2.rs")],
 ["return codes and image of opj_read_header / opj_decode / opj_end_decompress"])

p("C02","A strict decode that succeeds after read faults returned exact pixels",
 "When reading, skipping or seeking in the source fails, stops early, or the file cannot be opened, a strict-mode decode reports failure - or, if it reports success, the image is exactly the stored one. It never reports success with missing, stale or made-up pixels.",
 ["fault_sequences","crash_points","inputs"],
 "all placements of read errors, premature end of data, failing and short skips and seeks, during header, codestream and index reading, for every stream and configuration",
 "The tests never make a read fail; an error path that is swallowed only shows when the fault lands on that particular read.",
 CF+["openjp2-rs/src/t2.rs"],
 [("short-read checks after every read","openjp2-rs/src/j2k.rs, jp2.rs"),("end-of-stream and error status","openjp2-rs/src/stream.rs")],
 ["return codes and pixels compared with a fault-free decode"])

p("C03","An encode that reports success delivered every byte; storage faults are reported",
 "When start, encode and end of compression all report success, the storage behind the stream holds exactly the bytes a fault-free encode of the same image and parameters produces, however writes were split. When a write, skip or seek fails for good or the storage fills up, at least one of the calls reports failure.",
 ["fault_sequences","crash_points","schedules","inputs","configurations"],
 "all placements of short writes, write errors, failing seeks and full storage in any encode, raw codestream or JP2, whole-image or tile by tile, with any buffer size, through files or callbacks",
 "No existing test encodes anything.",
 CF+["openjp2-rs/src/tcd.rs"],
 [("buffered writer and flush","openjp2-rs/src/stream.rs"),("patching of lengths by seeking back","openjp2-rs/src/jp2.rs, j2k.rs")],
 ["bytes on simulated storage","return codes"])

p("C04","Lossless encoding round-trips exactly through storage",
 "An image encoded losslessly and decoded again from the stored bytes has identical dimensions, offsets, subsampling, precision, signedness and sample values in every component, for every supported coding configuration (tiling, progression, resolutions, code-block size and style, precincts, multi-component transform, layers, markers, JP2 or raw), under every legal splitting of the I/O on both sides. The colour space, alpha channels and profile of a JP2 file come back as well. A configuration the encoder refuses with an error is not a violation when the refusal follows from the format (more than 255 tile-parts of a tile, guard bits too few for the content).",
 ["inputs","configurations","schedules"],
 "all images and lossless coding configurations, all legal write and read schedules",
 "No existing test encodes anything; the decoder tests do not look at pixel values of more than one sample.",
 ["openjp2-rs/src/tcd.rs","openjp2-rs/src/t1.rs","openjp2-rs/src/t2.rs","openjp2-rs/src/dwt.rs","openjp2-rs/src/mct.rs","openjp2-rs/src/mqc.rs","openjp2-rs/src/pi.rs","openjp2-rs/src/tgt.rs"]+CF,
 [("encoder and decoder pipelines","openjp2-rs/src/tcd.rs")],
 ["decoded image compared with the original"])

p("C05","Damaged or truncated storage never crashes, hangs or corrupts memory",
 "Decoding data that was truncated, bit-flipped, torn, zero-filled or stitched together by a storage fault, in strict or tolerant mode, whole or by tile or area, always returns to the caller in bounded time, either with an error or with an image whose description and buffers are consistent. It never panics, aborts, reads or writes memory it does not own, or leaves anything allocated after cleanup.",
 ["fault_sequences","inputs","crash_points"],
 "all storage corruptions of valid files at all positions, combined with all decode entry points",
 "The tests decode one undamaged sample.",
 CF+["openjp2-rs/src/t1.rs","openjp2-rs/src/t2.rs","openjp2-rs/src/tcd.rs","openjp2-rs/src/pi.rs","openjp2-rs/src/ht_dec.rs","openjp2-rs/src/sparse_array.rs"],
 [("marker length and range checks","openjp2-rs/src/j2k.rs, jp2.rs"),("tile, packet and code-block bounds checks","openjp2-rs/src/t2.rs, tcd.rs")],
 ["process survival, guard pages, allocator ledger, step budget"])

p("C06","Running out of memory is an ordinary, recoverable error",
 "If any memory allocation made through the library's allocation functions while encoding or decoding fails, the operation either reports failure or still delivers its exact result; nothing crashes, everything is released on cleanup, and the same operation repeated afterwards with memory available gives the exact result.",
 ["fault_sequences","crash_points"],
 "every single allocation of every operation failing, and all sets of failing allocations",
 "The tests never make an allocation fail; each of the several hundred allocation sites is its own failure path.",
 ["openjp2-rs/src/malloc.rs","openjp2-rs/src/tcd.rs","openjp2-rs/src/t1.rs","openjp2-rs/src/t2.rs","openjp2-rs/src/image.rs","openjp2-rs/src/tgt.rs","openjp2-rs/src/pi.rs"]+CF,
 [("null checks and unwinding after each allocation","openjp2-rs/src/*.rs")],
 ["return codes, allocator ledger, pixels of the retry"])

p("C07","Everything a codec, stream or image owns is released exactly once",
 "Whatever sequence of calls an application makes, successful or failing, with or without I/O faults, destroying the codec, the stream and the image releases every allocation exactly once and calls the stream's user-data destructor exactly once; nothing is released that is still owned by the caller.",
 ["histories","fault_sequences"],
 "all call histories over codec, stream, image and index objects, including abandoning an operation after any step and calls in an unexpected order",
 "The tests run one straight-line decode and do not look at the allocator.",
 ["openjp2-rs/src/openjpeg.rs","openjp2-rs/src/image.rs","openjp2-rs/src/stream.rs","openjp2-rs/src/malloc.rs"]+CF[2:],
 [("destroy functions","openjp2-rs/src/openjpeg.rs, j2k.rs, jp2.rs, image.rs"),("user-data free on stream drop","openjp2-rs/src/stream.rs")],
 ["allocator ledger at the malloc/free boundary","user-data destructor calls"])

p("C08","Partial decodes agree with the full image, in any order",
 "Decoding an area, single tiles in any order and repetition, a subset of components, or a reduced resolution gives exactly the corresponding samples of the full decode at that resolution with the geometry the standard prescribes, whatever partial decodes were done before on the same codec and however the reads were delivered. The palette, component mapping and channel definitions of a JP2 file give each part the colours they give the whole, as the standard defines them. (A subset of components is asked for only without a multi-component transform, which needs all of them, and then yields components before the colour processing of JP2.)",
 ["histories","inputs","configurations","schedules"],
 "all sequences of area, tile, component and resolution requests on one or several codecs over all tiled and untiled lossless streams",
 "The tests only decode the whole image once.",
 ["openjp2-rs/src/j2k.rs","openjp2-rs/src/jp2.rs","openjp2-rs/src/tcd.rs","openjp2-rs/src/dwt.rs","openjp2-rs/src/sparse_array.rs","openjp2-rs/src/t1.rs","openjp2-rs/src/t2.rs"],
 [("decode area and tile index handling","openjp2-rs/src/j2k.rs"),("windowed inverse transform","openjp2-rs/src/dwt.rs, sparse_array.rs")],
 ["decoded samples compared with the full decode"])

p("C09","Codecs used at the same time do not affect each other",
 "Any number of encodes and decodes running at the same time on different codec objects, interleaved in any way, each give exactly the result and messages they give when run alone (apart from notices the library gives once per process), and a fault in one affects no other.",
 ["schedules","fault_sequences"],
 "all interleavings of concurrent codec operations at their I/O and allocation points",
 "Each test runs one codec at a time.",
 ["openjp2-rs/src/openjpeg.rs","openjp2-rs/src/j2k.rs","openjp2-rs/src/tcd.rs","openjp2-rs/src/t1.rs","openjp2-rs/src/event.rs","openjp2-rs/src/stream.rs"],
 [("all state owned by the codec object","openjp2-rs/src/codec.rs, j2k.rs, tcd.rs")],
 ["results of each operation compared with its solo run"])

p("C10","I/O is bounded: no operation reads or writes without end",
 "Encoding or decoding makes a number of read, write, skip and seek calls bounded by the size of the data and finishes, also when the source keeps returning one byte, returns nothing, reports an error on every call or ends at any point, and when the sink accepts one byte at a time or nothing at all.",
 ["schedules","fault_sequences","crash_points"],
 "all sequences of callback results, including endless zero-byte reads and writes and persistent errors from any point on",
 "The tests use a source that always makes progress.",
 CF,
 [("read, skip and write loops","openjp2-rs/src/stream.rs"),("marker scanning loops","openjp2-rs/src/j2k.rs, jp2.rs")],
 ["number of callback calls, return of the operation"])

p("C11","Tolerant decoding of a truncated file keeps every complete tile",
 "When a stored file lost its end, a decode in tolerant (non-strict) mode that reports success returns exact pixels for every tile whose data is completely present before the cut, and a strict decode either fails or returns the exact image. The longer the surviving prefix, the more tiles are exact. It does report success when some tile is completely present, unless the cut left another tile's data inconsistent or a component without any samples. (A last tile-part that does not state its length is complete only with the end-of-codestream marker; tiles whose number of tile-parts is not stated may be accepted by a strict decode when the cut falls exactly between tile-parts of the last tile, a leniency the decoder documents.)",
 ["crash_points","inputs","configurations"],
 "all cut points of all multi-tile lossless files",
 "The tests never cut a file.",
 ["openjp2-rs/src/j2k.rs","openjp2-rs/src/t2.rs","openjp2-rs/src/tcd.rs","openjp2-rs/src/jp2.rs"],
 [("truncated tile-part handling","openjp2-rs/src/j2k.rs opj_j2k_read_sod, opj_j2k_decode_tiles"),("strict flag","openjp2-rs/src/openjpeg.rs opj_decoder_set_strict_mode")],
 ["per-tile comparison with the original"])

p("C12","Encoding tile by tile writes what whole-image encoding writes",
 "Encoding an image by handing over its tiles one at a time produces a file whose decode is identical to that of encoding the whole image at once with the same parameters, under any legal write schedule, and handing over a tile of the wrong size or number is reported without affecting the file's other tiles or memory safety.",
 ["histories","configurations","schedules","inputs"],
 "all tilings, all images, all splittings of the tile-write history and write schedules",
 "No existing test encodes anything.",
 ["openjp2-rs/src/j2k.rs","openjp2-rs/src/jp2.rs","openjp2-rs/src/tcd.rs","openjp2-rs/src/openjpeg.rs"],
 [("tile write path","openjp2-rs/src/j2k.rs opj_j2k_write_tile"),("tile data copy","openjp2-rs/src/tcd.rs")],
 ["stored bytes and decoded images of both paths"])

p("C13","A file cut short by a crash while encoding is never taken for complete",
 "If the process dies at any moment while an image is being encoded to storage, whatever prefix of its writes reached storage is either rejected by a strict decode or decodes to exactly the image that was being encoded.",
 ["crash_points","configurations","inputs"],
 "all crash points between and inside the writes and seeks of an encode, raw codestream or JP2, for all configurations",
 "No existing test encodes or crashes.",
 CF,
 [("order of writes and length patching","openjp2-rs/src/jp2.rs, j2k.rs"),("end-of-codestream and tile-part length checks","openjp2-rs/src/j2k.rs")],
 ["strict decode of every surviving prefix"])

p("C14","Every legal stored form of a codestream gives the same image",
 "The same coded image may be stored in many ways: its tiles divided into tile-parts at any packet boundaries and those of different tiles interleaved in any order, tile-parts counted or not, the last one with or without its length, packet headers in place or packed into the main header or the tile-part headers, with or without packet and tile-part length indexes, coding and quantization parameters given once for all or per tile or component, comments and registration added. A whole, partial, tile-wise or reduced decode, strict or tolerant, through any stream, gives the same outcome and the same samples for all of them.",
 ["inputs","configurations","schedules","histories"],
 "all codestreams of the lossless and lossy encoder in all legal rewritten forms, all ways of asking for the image, all legal read schedules",
 "The tests decode one file, in the one form its encoder happened to write.",
 ["openjp2-rs/src/j2k.rs","openjp2-rs/src/t2.rs","openjp2-rs/src/tcd.rs","openjp2-rs/src/jp2.rs","openjp2-rs/src/pi.rs"],
 [("tile-part headers, SOT/SOD, TLM and tile index","openjp2-rs/src/j2k.rs"),("packed packet headers","openjp2-rs/src/j2k.rs opj_j2k_merge_ppm, opj_j2k_merge_ppt; t2.rs"),("COC/QCC/RGN/POC overrides","openjp2-rs/src/j2k.rs")],
 ["outcome and samples of the same request on both forms"])

p("C15","Lossy coding loses little, keeps to its size and honours transforms",
 "An image encoded irreversibly, without a limit on the size or quality of its last layer, comes back from the stored file with the same geometry, every sample in range and close to the original: no error above 8 and a mean square error of at most 4 for samples of up to 14 bits (in proportion more for deeper ones), for all coefficients the coder can hold. With a custom component transform of the application, the stored components are the transformed ones, reversibly or not. A limit on the size of a single layer which is plainly attainable is kept by the stored codestream.",
 ["inputs","configurations","schedules"],
 "all images and irreversible configurations, all custom transforms, all size limits, all legal write and read schedules",
 "The tests encode nothing; lossy errors need a configuration, an image and a comparison of samples.",
 ["openjp2-rs/src/dwt.rs","openjp2-rs/src/mct.rs","openjp2-rs/src/invert.rs","openjp2-rs/src/tcd.rs","openjp2-rs/src/t1.rs","openjp2-rs/src/j2k.rs"],
 [("irreversible wavelet and component transforms","openjp2-rs/src/dwt.rs, mct.rs, invert.rs"),("quantization and rate allocation","openjp2-rs/src/tcd.rs, t1.rs, j2k.rs")],
 ["difference of samples, size of the stored codestream"])

p("P01","IIIF parameters are parsed as the Image API prescribes",
 "The region, size, rotation, quality and format segments are accepted exactly when the IIIF Image API 3.0 grammar (as far as implemented) accepts them, with the value they denote.",
 ["inputs"],"all strings","Unit tests sample a few dozen strings.",
 ["src/iiif/parse.rs"],[("FromStr implementations","src/iiif/parse.rs")],["parse results"])
p("P03","HTJ2K code-blocks decode to the values the standard prescribes",
 "A stream with high-throughput code-blocks decodes to exactly the samples ISO 15444-15 prescribes.",
 ["inputs"],"all HTJ2K streams","The samples contain no HTJ2K stream.",
 ["openjp2-rs/src/ht_dec.rs"],[("HT code-block decoder","openjp2-rs/src/ht_dec.rs")],["decoded samples"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"]
print(len(P))
