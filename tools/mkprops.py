import json
P=[]
def p(id,title,st,over,q,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None,**({'state':state} if state else {}))))

W='format/io/writer.go';R='format/io/reader.go'
p('C01','A written recording reads back with the same structure',
 "Any recording tree the writer accepts - any nesting up to 10,000 levels, any ids and names, any number and mix of capture collections per node - reads back, with the same encoders registered, with the same tree shape, sibling order, ids and names, and with every node holding the same collections in the same order, each with its own name, kind, capture count and its own captures. This holds for every compression setting, time storage technique, encoder technique and registration order, including empty collections, empty strings, arbitrary bytes in names, and trees in which different nodes use different kinds of collection.",
 ['inputs','configurations'],"all recording trees x writer configurations (compression, time technique, encoder techniques and order)",
 "Unit tests round-trip about a dozen hand-made recordings (max. two levels, mostly one collection kind) and compare id lengths rather than ids; stream indices across subtrees and encoders are only exercised for one or two shapes.",
 [W,R,'format/encoding/encoder.go'],[('evaluateCollections / encodingBlocks index bookkeeping',W),('recursiveBuidRecordings',R)],['bytes handed to the sink','recording returned by the reader'])
p('C02','Metadata survives a write and read unchanged',
 "Every metadata value (string, 32 bit integer and float, boolean, byte, 2 and 3 component vectors, nested block, microsecond timestamp, and arrays of each supported type including byte and boolean arrays), attached to any recording, event, binary or binary reference at any depth of nesting up to 10,000 levels, reads back as the same kind with the same value under the same key, and no key is lost, added or attached to another owner; a value nested deeper is refused with an error, never written and lost. Keys may be arbitrary strings and may be shared or distinct between any number of owners.",
 ['inputs'],"all metadata blocks over all value types, keys, nesting depths and sets of owners in one recording",
 "One test with a single block on a root recording and one basic IO test; key dictionaries shared between several owners and nested arrays are hardly exercised, and only sampled values.",
 ['format/metadata/io.go','format/metadata/property.go',W,R],[('metadata key dictionary shared across the recording tree',W+' accumulateMetdataKeys/writeMetadata'),('type codes and readPropData','format/metadata/io.go')],['recording returned by the reader','property values read back'])
p('C03','Attached binaries and binary references survive byte for byte',
 "Every binary attached to any node of a recording reads back with the same name, size and exact content, and every binary reference with the same name, URI and 64 bit size, in the same order and on the same node, whatever the content, size (including empty) and count. The content a loaded binary offers can be read any number of times, each time completely.",
 ['inputs'],"all recordings with binaries/references of any content, size, count and placement",
 "Two tests each with a couple of small binaries on the root only.",
 ['format/io/binary.go','format/io/binary_reference.go',W,R],[('size-prefixed raw copy',W),('NewBinary / Data reader','format/io/binary.go')],['recording returned by the reader'])
p('C04','Full precision encodings are exact',
 "With the 64 bit techniques, timestamps and position, rotation and float values are read back bit for bit for every double, including signed zeros, infinities, NaNs and subnormals; with the 32 bit techniques each is read back as the nearest single precision value. This holds for any number of captures, in any time order, and independently of the other collections in the recording.",
 ['inputs','configurations'],"all float64 values and sequences for Raw64/Raw32 techniques",
 "Tests use rand.Float64()-style ordinary values and tolerance comparisons.",
 ['format/encoding/position/raw64.go','format/encoding/position/raw32.go','format/encoding/euler/raw64.go','format/encoding/euler/raw32.go','format/encoding/float/float.go','format/io/time.go'],[('raw codecs','format/encoding/*/raw*.go')],['captures decoded by the reader'])
p('C05','Octree-quantised positions stay within their resolution without drift',
 "Positions stored with the 24 or 48 bit octree technique are read back, per axis, within half a leaf cell (8 or 16 subdivisions) of the range spanned by the steps between consecutive captures, except where the step needed to correct the previous error leaves that range, in which case only the part outside it is added; besides that only single precision rounding of the stored start and range accumulates, so quantisation errors do not add up over a recording. A lone capture is exact to single precision, and straight constant-velocity motion is exact up to single precision rounding.",
 ['inputs'],"all position sequences (any length, scale, direction, constant axes, jumps)",
 "Tests use random walks with fixed tolerances and are documented as flaky; they cannot separate drift from resolution or reach long or degenerate sequences.",
 ['format/encoding/position/oct24.go','format/encoding/position/oct48.go','format/encoding/position/oct.go'],[('read-back of the quantised position at encode time','format/encoding/position/oct24.go encodeOct24, oct48.go encodeOct48')],['captures decoded by the reader'])
p('C06','16 bit rotations stay within their resolution modulo 360 degrees',
 "Rotations stored with the 16 bit technique are read back, per axis, as an angle within 0 to 360 degrees that differs from the original angle modulo 360 by at most 360/2^17 degrees, for any finite angle including negative ones, exact multiples of 360 and values just below or above them. A collection with a single capture is exact to single precision modulo 360.",
 ['inputs'],"all sequences of finite angles",
 "Tests use a handful of wrapped angles with a coarse tolerance.",
 ['format/encoding/euler/raw16.go','internal/io/binary/util.go'],[('wrapEulerAngle + BST quantisation','format/encoding/euler/raw16.go')],['captures decoded by the reader'])
p('C07','16 bit floats stay within their resolution',
 "Float captures stored with the 16 bit technique are read back within (max-min)/2^17 of the original, where min and max are the smallest and largest value of that collection, plus single precision rounding of those two bounds; collections whose values are all equal are exact to single precision. This holds for any finite values, sign, magnitude within single precision range, order and length, and values of one collection never influence another.",
 ['inputs'],"all finite float sequences within float32 range",
 "Tests use random values in a fixed range with a fixed tolerance.",
 ['format/encoding/float/float.go','internal/io/binary/util.go'],[('per-collection min/max BST quantisation','format/encoding/float/float.go encodeBST16')],['captures decoded by the reader'])
p('C08','Compact timestamps stay within resolution, ordered and without drift',
 "For chronological captures the compact 16 bit time technique reads back the first timestamp to single precision and every later one within 1/2^17 of the largest gap of that collection, except where correcting the accumulated error would need a step below zero or above the largest gap, in which case only that excess is added, besides single precision rounding of start and largest gap. Timestamps never decrease, quantisation errors do not accumulate otherwise, and any number of captures, from none on, is preserved.",
 ['inputs'],"all chronological timestamp sequences (bursts, equal times, huge gaps, negative times, any length)",
 "Tests check a few short sequences with loose deltas.",
 ['format/io/time.go','internal/io/binary/util.go'],[('read-back of quantised time at encode','format/io/time.go encodeTimeBST16')],['times of captures returned by the reader'])
p('C09','Events survive exactly: name, payload and attachment',
 "Every event capture reads back with its own name and its own complete metadata payload, in the original order within its collection, however many event collections in the recording tree share or do not share event names and payload keys, and however many distinct names and keys there are. No event inherits a name, key or value from another event.",
 ['inputs'],"all recordings with any number of event collections and events, names, keys and payload types",
 "One event encoder test and a few recordings with two or three events.",
 ['format/encoding/event/event.go','format/collection/event/collection.go'],[('shared name and key dictionaries in the encoder header','format/encoding/event/event.go Encode/Decode')],['captures decoded by the reader'])
p('C10','Enum captures survive exactly: members and values',
 "Every enum collection reads back with exactly its own member list, in order and including duplicates and empty strings, and every capture with its exact integer value, however many enum collections with overlapping or different members are stored in the same recording tree. Values outside the member list and negative values are preserved too.",
 ['inputs'],"all recordings with any number of enum collections, member lists and integer values",
 "Two tests with short member lists and small values.",
 ['format/encoding/enum/enum.go','format/collection/enum/collection.go'],[('shared member dictionary in the encoder header','format/encoding/enum/enum.go Encode/Decode')],['captures decoded by the reader'])
p('C11','Byte counts are truthful',
 "The byte count reported by a successful write equals the count reported when reading that file back; without compression it also equals the number of bytes handed to the sink, and reading consumes exactly that many bytes from the source, so uncompressed recordings stored back to back can be read one after another. With compression the compressed file is self contained and re-reads identically.",
 ['inputs','configurations','histories'],"all recordings and writer configurations; sequences of recordings in one stream",
 "Tests compare the two counts on a dozen recordings; none looks at the sink or at consecutive recordings.",
 [W,R,'internal/io/binary/reader.go'],[('errWriter/ErrReader counters',W+', internal/io/binary/reader.go')],['counts returned by Write and Read','bytes seen by a counting sink/source'])
p('C12','Each collection is handled once by the right encoder, versions negotiated',
 "While writing, every collection of the whole tree is handed exactly once to exactly one encoder, the first registered one that accepts it, and while reading each stored collection is decoded exactly once by the encoder with the recorded signature, which receives the exact header and payload that encoder produced together with the collection's name and timestamps. Registered encoders that are not needed never affect the file; a file needing an encoder that is not registered, or a newer version of it than the registered one, is refused with an error, and equal or older versions are accepted (encoders having distinct signatures).",
 ['inputs','configurations'],"all recordings x encoder sets (built-in and user defined, any order, versions, subsets)",
 "Tests use mocks for a single unsupported stream; version negotiation, encoder order and multi-node grouping are untested.",
 [W,R,'format/encoding/encoder.go'],[('evaluateCollections',W),('readEncoders',R)],['calls received by instrumented encoders (event log)','errors of Read/Write'])
p('C13','Loading does not depend on how the source delivers bytes',
 "Loading a file, of format version 1 or 2, compressed or not, yields the same recording and byte count whatever sizes the source returns its bytes in - one at a time, in arbitrary short chunks, with the end-of-file signal delivered together with or after the last bytes - and from whatever position of a longer source it starts, as when the whole file is available at once. A source that fails with an error part-way makes loading fail with an error.",
 ['inputs','schedules','fault_sequences'],"all valid files x all chunkings and failure points of the source",
 "All tests read from in-memory buffers or whole files, which return everything in one call.",
 [R,'internal/io/rapv1/util.go','internal/io/binary/reader.go','internal/io/binary/util.go'],[('io.ReadFull / ErrReader','internal/io/binary/reader.go')],['recording and count returned by Load/Read'])
p('C14','A truncated file is never silently accepted as different content',
 "Reading any proper prefix of a valid file either fails with an error or, only when nothing but trailing compression framing is missing, returns a recording identical to the complete one; it never panics and never returns a recording with missing, shortened or invented content. A collection payload cut short is likewise refused with an error or decodes to the exact original captures.",
 ['inputs','crash_points'],"all valid files x all truncation points (crash of the writing process), all collection payloads x all cut points",
 "No test truncates a file.",
 [R,'internal/io/binary/reader.go','format/encoding/position/raw32.go','format/encoding/euler/raw16.go','format/encoding/float/float.go'],[('sticky ErrReader',R),('per technique decoders','format/encoding/*')],['result of Read on prefixes','result of decoding cut payloads'])
p('C15','Corrupt input is refused with an error, within bounded work and memory',
 "Loading arbitrary or damaged bytes always terminates with either an error or a complete, usable recording (no missing collections or values; every part can be inspected, sliced, summarised and written again); it never panics, never runs out of stack, and never allocates memory out of proportion to the bytes actually present, nor works beyond a bound set by them, whatever lengths, counts, indices, type codes or techniques the bytes claim and whatever they hold much of.",
 ['inputs'],"all byte strings, in particular mutations of valid files of both versions",
 "Tests feed one empty and one one-byte file.",
 [R,'format/metadata/io.go','format/encoding/event/event.go','format/encoding/enum/enum.go','internal/io/binary/string.go','internal/io/binary/bytes.go','internal/io/rapv1/util.go','format/io/time.go'],[('length and index validation while decoding',R)],['outcome, allocation and CPU time of Load on hostile bytes'])
p('C16','A failing sink makes the write fail cleanly',
 "If the underlying sink reports an error at any point - after any number of bytes, during any part of the recording, with or without compression, permanently or just once - the write returns a non-nil error and does not panic, hands the sink nothing further after the failure, and never reports success for an incomplete file. What the sink accepted before is a prefix of the file that would have been written.",
 ['fault_sequences','crash_points','inputs'],"all recordings x all failure offsets x {compressed, uncompressed} x {permanent, transient, partial write}",
 "No test uses a failing sink.",
 [W,'format/io/time.go'],[('errWriter sticky error',W)],['error/panic of Write','bytes accepted by the fault-injecting sink'])
p('C17','Version 1 files load faithfully',
 "Loading a version 1 file yields a recording named and identified as in the file with one child per subject, in order, carrying the subject's id and name, and each with its positions, rotations, custom events and life cycle captures in file order with the exact stored single precision times and values, plus its metadata with numeric text available as numbers and other text as text. Root level custom events and metadata are preserved likewise, and files that hold other than exactly one recording, have inconsistent sizes or undecodable content are refused with an error.",
 ['inputs'],"all version 1 files the format description allows",
 "Two sample files are loaded and only names and counts are compared.",
 ['internal/io/rapv1/util.go','internal/io/rapv1/recording.go','internal/io/rapv1/recording.pb.go',R,'docs/formats/v1/README.md'],[('protobufToStd','internal/io/rapv1/util.go')],['recording returned by Load'])
p('C18','Upgrading a version 1 file keeps its content',
 "Upgrading any version 1 file produces a version 2 file that holds the same tree of recordings, ids, names, metadata, events (names and payloads), life cycle values and numbers of captures, with positions, rotations and times of chronological captures within the resolution of the compact techniques used. The original file is left untouched.",
 ['inputs'],"all version 1 files with chronological captures",
 "One sample file is re-written with lossless techniques in-process; the upgrade command itself is untested.",
 ['cmd/rap-cli/main.go','internal/io/rapv1/util.go',W],[('upgrade command','cmd/rap-cli/main.go')],['output of the upgrade command, loaded back'])
p('C19','Slicing keeps exactly the captures inside the time range',
 "Slicing a recording keeps, in every collection of every node, exactly the captures with beginning <= time < end in their original order and unchanged, and keeps ids, names, metadata, tree shape, collection names and kinds (with enum members) and binary references; binaries are kept on every node unless the caller asks to drop them, in which case they are dropped on every node. Of an option given more than once the last one counts. Consequently slicing twice equals slicing with the intersection of the ranges, adjacent slices partition the captures, and a slice without bounds changes nothing (all for timestamps that are finite).",
 ['inputs'],"all recordings x all slice options (open/closed bounds, infinities, empty and inverted ranges)",
 "One test with one range on a position-only recording.",
 ['format/slice.go','format/collection/position/collection.go','format/collection/euler/collection.go','format/collection/enum/collection.go','format/collection/event/collection.go','format/collection/float/collection.go'],[('CaptureFallsWithin','format/slice.go'),('Collection.Slice','format/collection/*/collection.go')],['recording returned by Slice'])
p('C20','Validation and time extent report the truth about the whole tree',
 "With chronological checking on (the default) validation fails if and only if some collection on any node of the tree has a capture earlier than its predecessor, and with checking off it succeeds. For recordings whose collections are chronological, the reported start, end and duration equal the smallest, the largest and the difference of the largest and smallest timestamp found anywhere in the tree, ignoring empty collections; a recording without any capture has duration zero.",
 ['inputs'],"all recordings (any depth, empty collections, negative and equal times)",
 "One validation test and no direct test of start/end.",
 ['format/validate.go','format/util.go'],[('Validate recursion','format/validate.go'),('RecordingStart/End','format/util.go')],['results of Validate, RecordingStart, RecordingEnd, RecordingDuration'])
p('C21','JSON import builds exactly the recording described',
 "Importing a JSON document yields a recording with exactly the described id, name, sub-recordings, references, collections, captures (times, positions, rotations, events with their metadata) and metadata, in order; enum captures refer to the member named in the document, each distinct name being one member. Metadata strings containing quotes, backslashes, newlines or any unicode, integers of any 32 bit magnitude, fractions, booleans, bytes, vectors, timestamps, nested objects, and arrays are imported with their value, and written and loaded again with that same value; an integer beyond 32 bits (numbers being read to double precision, as is usual for JSON) is imported only if it is exactly a single precision value, and refused otherwise.",
 ['inputs'],"all well-formed JSON descriptions of recordings",
 "About 40 tests with single-element collections and plain ASCII strings; no import is ever written to a file and read back.",
 ['format/parsing/json.go','format/metadata/utils.go','format/metadata/property.go'],[('parseRecordingFromJSON','format/parsing/json.go'),('getProperties','format/metadata/utils.go')],['recording returned by the importer','the same after a write and read'])
p('C22','JSON import refuses what it cannot represent and never panics',
 "Importing any bytes terminates without panicking and either returns an error or a recording that can be written and read back; documents that are not valid JSON, lack or mistype a required field at any level, or contain metadata the format cannot represent (null, arrays of arrays, arrays mixing incompatible types) are refused with an error. An accepted document never loses a sub-recording, collection, capture, reference or metadata entry.",
 ['inputs'],"all byte strings, in particular structural mutations of valid documents",
 "Tests check single specific malformed documents for their error message.",
 ['format/parsing/json.go','format/metadata/utils.go'],[('parseRequired* checks','format/parsing/json.go')],['result of the importer on mutated documents'])
p('C23','JSON export is valid JSON and tells the truth',
 "Whenever exporting a loadable recording to JSON reports success, the output is one complete, syntactically valid JSON document whose ids, names, metadata values, collection names, signatures and counts, event names, times (to the printed six decimals) and payloads, and nested recordings equal those of the recording, whatever characters its strings contain (bytes that are not UTF-8 appear as U+FFFD). What cannot be represented in JSON (such as a NaN in an exported value anywhere in the tree, or a timestamp outside the years 0 to 9999) makes the export fail with an error instead.",
 ['inputs'],"all recordings (arbitrary strings, metadata, depth)",
 "One test compares one recording's output with plain ASCII strings.",
 ['cmd/rap-cli/json.go','format/metadata/property.go'],[('toJson','cmd/rap-cli/json.go'),('MarshalJSON','format/metadata/property.go')],['stdout and exit status of to-json'])
p('C24','Metadata values survive their own JSON form',
 "Marshalling any metadata value or block to JSON yields valid JSON that states its value, and unmarshalling that text yields an equal value of the same kind - for blocks, per entry, except where the JSON form is inherently shared by two kinds (such as a float holding an integer or text that looks like a timestamp or hex literal), where the value is still the same. Unmarshalling arbitrary JSON never panics and, for blocks and arrays, reports an error rather than altering or dropping values. Values JSON cannot state (NaN, infinities, timestamps outside the years 0 to 9999) are refused.",
 ['inputs'],"all metadata values, blocks and arbitrary JSON texts",
 "Tests marshal one example per type; unmarshalling of blocks is tested with a single document.",
 ['format/metadata/property.go','format/metadata/utils.go'],[('MarshalJSON/UnmarshalJSON','format/metadata/property.go'),('getProperties','format/metadata/utils.go')],['JSON text and unmarshalled value'])
p('C25','CSV import accounts for every row',
 "Converting a CSV file with the documented columns, in any column order and with additional columns, yields a recording with exactly one child per distinct (id, name) pair, each holding the rows of that pair in file order with exactly the time and coordinates written in the file. Every row ends up in exactly one child; a file missing a required column or with an unparsable number is refused with an error and never produces output or a crash.",
 ['inputs'],"all CSV files (row interleavings, column orders, quoting, numbers, missing or extra columns)",
 "One test with three rows of one subject.",
 ['cmd/rap-cli/csv.go','cmd/rap-cli/main.go'],[('RecordingFromCSV grouping','cmd/rap-cli/csv.go')],['output of from-csv, loaded back'])
p('C26','Independent operations may run concurrently',
 "Any number of goroutines may at the same time write, read, slice, validate, export and import recordings - sharing encoders, recordings and metadata, each with its own reader or writer stream - without data races, and every operation gives the same result as when run alone.",
 ['schedules'],"all interleavings of concurrent operations over shared encoders and recordings",
 "No test uses goroutines.",
 [W,R,'format/encoding/position/position.go','format/encoding/euler/euler.go','format/encoding/event/event.go','format/encoding/enum/enum.go','format/encoding/float/float.go','internal/io/binary/util.go'],[('stateless value-type encoders','format/encoding/*')],['race detector reports','per-operation results compared with sequential ones'])
p('C27','Operations neither modify their input nor remember earlier ones',
 "Writing, slicing, validating, measuring and exporting leave the recording they are given unchanged, and changing what an accessor returned as a list of captures does not change the collection. Encoders, writers and readers keep no memory: using the same ones for any sequence of recordings, including after failures, gives the same results as fresh ones.",
 ['histories','inputs'],"all sequences of operations over shared encoders, writers and recordings",
 "Every test builds fresh objects for a single operation.",
 [W,R,'format/slice.go','format/collection/position/collection.go','format/encoding/event/event.go','format/encoding/enum/enum.go'],[('copying accessors','format/collection/*/collection.go'),('per-call dictionaries','format/encoding/*')],['deep snapshots before and after','results of reused vs fresh objects'])
p('C28','The summary reports the true totals',
 "Summarising a file reports its name (or a placeholder when empty), the size of the file, the duration between its first and last capture (for chronological collections; zero without captures), its number of direct sub-recordings, and per kind the total number of captures over the whole tree, whatever the shape of the recording.",
 ['inputs'],"all loadable recordings with chronological captures",
 "One test with position collections in two levels.",
 ['cmd/rap-cli/summarize.go','format/util.go'],[('summarize recursion','cmd/rap-cli/summarize.go')],['stdout of summarize'])
p('C29','Unwritable recordings are refused before any byte is written',
 "A recording that contains, at any depth, an absent sub-recording, collection, binary or binary reference, or a collection no registered encoder accepts, or that nests recordings deeper than 10,000 levels, is refused with an error; the reported count is zero and the sink has received nothing. Recordings without such defects, nested at most 10,000 levels deep, are never refused.",
 ['inputs','configurations'],"all recordings with a defect of each kind at every position of the tree",
 "Tests place each defect directly on the root only.",
 [W],[('checkForNilInterfaces, evaluateCollections',W)],['error, count and sink contents'])
p('C30','Command line conversions succeed completely or fail visibly',
 "Each conversion and inspection command either exits successfully having produced its complete output, equal to what the library produces, whether it reads from a file or standard input and writes to a file or standard output, or exits with a failure status and a message; it never crashes with a stack trace and never modifies its input file. A JSON conversion whose input is unreadable or invalid leaves an already existing output file as it was, and a successful one replaces it completely.",
 ['inputs','fault_sequences'],"all commands x valid, damaged and missing inputs x existing or new outputs, files or pipes",
 "Only to-json with piped input is run once through the application object.",
 ['cmd/rap-cli/main.go'],[('BuildApp command actions','cmd/rap-cli/main.go')],['exit status, stdout/stderr and files of the built rap-cli binary'])
p('C31','The version 2 file layout is stable',
 "Files produced by the writer can be decoded by an independent implementation of the version 2 layout, and files produced by such an implementation are read correctly, for every storage technique, compression setting, metadata type and recording shape. In other words, recordings written by earlier releases stay readable with the same content, and recordings written now stay readable by earlier releases.",
 ['inputs','configurations'],"all recordings x all techniques, both directions",
 "All version 2 tests are self round-trips, so a change made consistently to both sides goes unnoticed; there is no stored version 2 sample.",
 [W,R,'format/io/time.go','format/metadata/io.go','format/encoding/position/oct24.go','format/encoding/position/oct48.go','format/encoding/event/event.go','format/encoding/enum/enum.go','docs/formats/v2/README.md'],[('on-disk layout',W+' and encoders')],['bytes of written files decoded by the reference codec','recordings read from reference-encoded files'])
p('C32','Metadata values survive their BSON form',
 "Marshalling any metadata block to BSON yields a document with exactly the block's keys, each carrying the entry's value in the corresponding BSON type: strings (of valid UTF-8), integers, floats, booleans, byte values, byte and boolean arrays, arrays in order, vectors and nested blocks as documents, and timestamps to BSON's millisecond resolution.",
 ['inputs'],"all metadata blocks",
 "One block with one value per type is compared.",
 ['format/metadata/property.go'],[('MarshalBSON/MarshalBSONValue','format/metadata/property.go')],['BSON document decoded generically'])
p('C33','Collections give one consistent view of their captures',
 "For a collection of any kind, built directly, sliced or loaded from a file, its length, its list of captures and its access by index describe the same captures in the same order, its start and end are the times of its first and last capture when it has any, and its captures return the time and value they were created with. Its kind identifier is that of the encoder that accepts it and of no other.",
 ['inputs'],"all collections of all kinds and sizes",
 "Only the event collection has tests, with two captures.",
 ['format/collection/position/collection.go','format/collection/euler/collection.go','format/collection/enum/collection.go','format/collection/event/collection.go','format/collection/float/collection.go','format/encoding/util.go'],[('accessors','format/collection/*/collection.go')],['results of the collection accessors'])
p('C34','Metadata values survive being stored on their own',
 "Any metadata value written by itself to a stream reads back as an equal value of the same kind, consuming exactly the bytes reported as written, so values stored one after another read back in order; a value nested deeper than the 10,000 levels that can be read back is refused with an error and nothing is stored. A stream which fails or ends early, a damaged value or an unknown kind code gives an error or a complete usable value, never a panic or unbounded memory; a sink which fails makes storing fail, with a count that is true.",
 ['inputs','fault_sequences'],"all metadata values, sequences of values, source and sink faults, damaged bytes",
 "One test writes one value per kind; no test cuts, damages or concatenates stored values.",
 ['format/metadata/io.go','format/metadata/property.go'],[('WriteProprty / ReadProperty','format/metadata/io.go')],['bytes at the sink and values read back'])
p('C35','The bundled programs do what they state',
 "The example program leaves a loadable file of the sine wave demo and nothing else in it: 1000 positions y = sin(10 t) a hundredth of a second apart, on the recording and on its one child, with the number of iterations in its metadata, whether or not a file of that name was there before. The benchmark program, given a loadable file of event, position, rotation and enum collections, succeeds and states truthfully, before and after storing the recording again, its name, its collections with name, kind and number of captures, and its number of sub-recordings, and the size read and the size stored; given anything else it ends with a failure status, states no result, and it never changes its input.",
 ['inputs'],"all input files and arguments of the benchmark program",
 "Neither program has any test.",
 ['cmd/example/main.go','cmd/rap-benchmark/main.go'],[('main','cmd/example/main.go'),('printRecording, run action','cmd/rap-benchmark/main.go')],['exit status, output and files of the built programs'])
p('C36','Any implementation of the interfaces is treated like the built-in one',
 "Writing, slicing, validating and measuring accept any implementation of the recording, collection, binary and reference interfaces - including ones which compute their results anew at each call, pointers to the collections of the library, and binaries whose data can be read only once - and give the same results as for the library's own objects holding the same data. Collections whose captures are not of the kind their signature claims are refused with an error, never with a crash. A binary that delivers more or fewer bytes than the size it states, or fails to deliver them, makes the write fail.",
 ['inputs'],"all recordings x implementations of the interfaces",
 "Tests only pass objects made by the library's own constructors, apart from one mock.",
 ['format/recording.go','format/slice.go','format/encoding/position/position.go','format/encoding/euler/euler.go','format/encoding/enum/enum.go',W],[('interfaces','format/recording.go'),('type assertions of the encoders','format/encoding/*')],['results of the operations on stand-in implementations and on built ones'])
p('C37','Recordings obtained by any operation can be used like built ones',
 "Recordings obtained by loading, slicing, taking parts of others or combining them can be written, read, sliced, measured and combined again like freshly built ones: after any sequence of operations the result is what the operations say, techniques which are exact never change anything over any number of generations, and no operation, nor appending to a list an accessor returned, changes a recording obtained earlier. The metadata blocks of what was loaded can be extended like new ones, each for itself.",
 ['histories','inputs'],"all sequences of write, read, slice, take and combine operations",
 "Tests apply one operation to one freshly built recording.",
 [W,R,'format/slice.go','format/recording.go','format/util.go'],[('slice and load results implement the same interfaces',R+', format/slice.go')],['recordings after each step of the sequence'])
p('C38','The text of values and captures states them truly',
 "The text of a metadata value states the value: strings as they are, integers, bytes and timestamps (in microseconds) as exact decimal numbers, booleans as true or false, floats and vectors to six decimals with their components in order, arrays their number of elements, blocks every key with the text of its value, in the order of the keys. The text of a capture states its time and its value, component by component, to two decimals (events: time and name). Equal values always have the same text, whether built or read back, however often and in whatever order they were put together.",
 ['inputs'],"all metadata values and captures",
 "One test compares the text of one block holding one value per kind.",
 ['format/metadata/property.go','format/collection/position/capture.go','format/collection/euler/capture.go','format/collection/enum/capture.go','format/collection/event/capture.go','format/collection/float/capture.go'],[('String methods','format/metadata/property.go')],['text of built and of loaded values'])
p('C39','Cost grows in proportion to what is processed',
 "With the depth of nesting unchanged, making a recording, document, table or value larger in any one respect - captures, collections, children, metadata entries, array elements, text length, attachments, references, distinct event names and keys, enum members, rows, subjects - makes writing, reading, loading either file version, slicing, validating, importing, and storing or converting metadata cost memory and processor time in proportion, not in proportion to the square: what is n times as large takes about n times as much, and several respects together take what they take one by one, not their product. The same is true of the command line conversions.",
 ['inputs'],"all sizes of every part of a recording, alone and together, at bounded depth",
 "Tests and the benchmark program use one fixed size each; nothing compares two.",
 ['format/io/writer.go','format/io/reader.go','format/io/load.go','format/slice.go','format/validate.go','format/parsing/json.go','format/metadata/io.go','format/metadata/property.go','format/encoding/event/event.go','internal/io/binary/reader.go','cmd/rap-cli/csv.go'],[('Writer.Write','format/io/writer.go'),('Reader.Read','format/io/reader.go'),('Slice','format/slice.go'),('FromJSON','format/parsing/json.go')],['allocated bytes and processor time at two sizes'])
p('C40','Command line conversions compose',
 "What from-csv, from-json or upgrade produces is a valid file which every command accepts, again and again: the library loads it, summarize reports its true totals, to-json exports its true content, and upgrade turns it into a file with the same structure, names, metadata, events and enum members and with times, positions and rotations within the resolution of the conversion of those of the file it was given. So a chain of conversions never loses or alters content beyond those resolutions, step by step.",
 ['inputs','histories'],"all chains of conversions starting at a table, a document, a version 1 file or any recording",
 "The commands are only tested one at a time, on one or two inputs, and most by their exit alone.",
 ['cmd/rap-cli/main.go','cmd/rap-cli/csv.go','cmd/rap-cli/json.go','cmd/rap-cli/summarize.go'],[('BuildApp: upgrade, from-csv, from-json commands','cmd/rap-cli/main.go'),('RecordingFromCSV','cmd/rap-cli/csv.go')],['every file in a chain of conversions'])
p('C41','Files take the space their layout and options promise',
 "A written file takes exactly the space its content needs in the version 2 layout: each technique's stated width per value (time stamps 8, 4 or 2 bytes; positions 24, 12, 6 or 3; rotations 30, 12 or 6; floats 8, 4 or 2), and each distinct metadata key, event name, event key and enum member once per file however many owners share it. With compression turned on, as by default, the same content is compressed about as well as the best DEFLATE level does (within 2 percent), so a more compact technique or compression never makes a large file bigger, and the recording of the README takes about the 1,171 bytes it states.",
 ['inputs','configurations'],"all recordings x techniques x compression settings; recordings in which many owners share keys, names and members",
 "No test looks at the size of a file; writing an entry twice, a weaker compression or a wider value all read back the same.",
 [W,'format/encoding/event/event.go','format/encoding/enum/enum.go','README.md'],[('accumulateMetdataKeys, Write',W)],['size of the file, of its inflated content and of an independent encoding'])
p('C42','Operations keep to the streams and memory they are given',
 "Writing, loading, importing, encoding, decoding, slicing, validating, measuring and exporting use only the streams and memory they are given, and only while they run: a sink is only written to and a source only read, neither is closed, and neither is used any more once the operation has returned, whether it succeeded or failed. What was loaded, imported or decoded does not depend on the memory of its source, document, header or payload any more, and bytes an operation returned are not changed by later operations. Nothing else is touched: library operations print nothing, leave no goroutine running, no descriptor open and no file behind, and do not change the working directory or environment.",
 ['inputs','histories','configurations'],"all recordings, files (valid, damaged, with other data following), documents and values x kinds of sources and sinks, including ones that can be closed",
 "Tests use buffers that can not be closed and are never used again, and do not look at what a process leaves behind.",
 [W,R,'format/encoding/event/event.go','format/encoding/enum/enum.go','internal/io/binary/bytes.go','format/parsing/json.go','format/metadata/io.go'],[('Write',W),('Read',R)],['calls at sources and sinks','descriptors, goroutines, files, standard streams of the process'])
p('C43','The machine does not change what operations do',
 "What is written, read, imported, exported, upgraded, summarised or refused does not depend on the machine rap is built for: neither on the number of bits of a machine word (32 or 64) nor on whether products and sums are computed in one step. Files and documents written on one machine hold the same on every other, and the same bytes are accepted or refused alike, with the same content. The only exception are numbers which the interfaces can not hold on a machine (enum values beyond 32 bits): there they are refused, never cut off. The other guarantees hold on each of these machines.",
 ['inputs','configurations'],"all recordings, files (valid, damaged, with numbers of up to 64 bits in every field) and documents x machines with 32 and 64 bit words, with and without fused arithmetic",
 "Tests run on the one machine they are started on.",
 [W,R,'internal/io/binary/uint.go','format/encoding/enum/enum.go','format/parsing/json.go','format/metadata/property.go','format/io/time.go'],[('Write',W),('Read',R),('ReadUvarIntArray','internal/io/binary/uint.go')],['what a 32 bit, a fused and the usual build make of the same bytes','results of the repeated cases of the other properties'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
